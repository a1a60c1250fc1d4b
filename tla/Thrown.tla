------------------------------- MODULE Thrown -------------------------------
(* only-throw-error and prefer-promise-reject-errors: an expression grows; at each moment it is thrown, or a promise is rejected with it.   *)
(* Types are sets: E an error, R a read-only error, S a string or number, Z one that is false, O something else, U undefined, A any, K unknown, L what the options allow.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Walks
VARIABLES e, d, bind, opt, w
vars == <<e, d, bind, opt, w>>
Types == {"E", "R", "S", "O", "U", "A", "K", "L"}
\* what a rethrown name is bound by: a catch clause, a handler for rejections, or something that is not one
Rethrows == {"catch", "handler", "thenhandler"}
Binders == Rethrows \cup {"function", "then", "spread", "notpromise", "second", "rest", "copy", "none"}
BinderTypes(b) == CASE b = "catch" -> {"A", "K"} [] b \in {"none"} -> {} [] b = "rest" -> {"O"} [] OTHER -> {"A", "K", "S", "E"}
Node(k, x, y, t) == [k |-> k, x |-> x, y |-> y, t |-> t]
None == [k |-> "", x |-> <<>>, y |-> <<>>, t |-> ""]
Leaf(t) == Node("leaf", <<>>, <<>>, t)
Bound(t) == Node("bound", <<>>, <<>>, t)
Absorb(s) == IF "A" \in s THEN {"A"} ELSE IF "K" \in s THEN {"K"} ELSE s
RECURSIVE T(_)
T(q) ==
  CASE q.k \in {"leaf", "bound"} -> {q.t}
    [] q.k \in {"paren", "assign"} -> T(q.x[1])
    [] q.k = "cast" -> {q.t}
    [] q.k = "and" -> LET l == T(q.x[1]) IN IF l \subseteq {"U", "Z"} THEN l ELSE Absorb((IF l = {"A"} THEN l ELSE (l \cap {"U", "Z"}) \cup (IF "S" \in l THEN {"Z"} ELSE {})) \cup T(q.y[1]))
    [] q.k = "comma" -> T(q.y[1])
    [] q.k = "cond" -> Absorb(T(q.x[1]) \cup T(q.y[1]))
    [] q.k = "or" -> LET l == T(q.x[1]) IN IF l \subseteq {"E", "R", "L", "O"} THEN l ELSE Absorb((l \ {"U", "Z"}) \cup T(q.y[1]))
    [] q.k = "qq" -> LET l == T(q.x[1]) IN IF "U" \notin l /\ l # {"A"} THEN l ELSE Absorb((l \ {"U"}) \cup T(q.y[1]))
RECURSIVE Core(_)
Core(q) == IF q.k = "paren" THEN Core(q.x[1]) ELSE q
Rethrown(q) == Core(q).k = "bound" /\ bind \in Rethrows
Throw(q, o) == LET t == T(q) IN
  IF t = {"L"} /\ o.allow THEN "none"
  ELSE IF t = {"U"} THEN "undef"
  ELSE IF (t = {"A"} /\ o.any) \/ (t = {"K"} /\ o.unknown) THEN "none"
  ELSE IF o.rethrow /\ Rethrown(q) THEN "none"
  ELSE IF t \subseteq {"E"} THEN "none" ELSE "object"
Reject(q, o) == LET t == T(q) IN
  IF t = {"L"} /\ o.allow THEN "none"
  ELSE IF (t = {"A"} /\ o.any) \/ (t = {"K"} /\ o.unknown) THEN "none"
  ELSE IF t \subseteq {"E"} \/ t = {"R"} THEN "none" ELSE "reject"
Opts == [allow : BOOLEAN, any : BOOLEAN, unknown : BOOLEAN, rethrow : BOOLEAN]
Starts(b) == {Leaf(t) : t \in Types} \cup {Bound(t) : t \in BinderTypes(b)}
Init == w \in 1..Walks /\ d = 0 /\ bind \in (IF Walks = 1 THEN Binders ELSE {RandomElement(Binders)}) /\ opt \in (IF Walks = 1 THEN Opts ELSE {RandomElement(Opts)})
        /\ e \in (IF Walks = 1 THEN Starts(bind) ELSE {RandomElement(Starts(bind))})
\* left of && || and ?? nothing unknown, whose part that is true has no name
Plain(q) == ~(T(q) \cap {"K"} # {})
Steps(q, o) == {Node("paren", <<q>>, <<>>, ""), Node("assign", <<q>>, <<>>, "")}
  \cup {Node("cast", <<q>>, <<>>, t) : t \in {"E", "A", "S", "O"}}
  \cup {Node(k, <<q>>, <<p>>, "") : k \in {"comma", "cond"}, p \in o} \cup {Node(k, <<p>>, <<q>>, "") : k \in {"comma", "cond"}, p \in o}
  \cup (IF Plain(q) THEN {Node(k, <<q>>, <<p>>, "") : k \in {"or", "qq", "and"}, p \in o} ELSE {})
  \cup {Node(k, <<p>>, <<q>>, "") : k \in {"or", "qq", "and"}, p \in {p \in o : Plain(p)}}
Succ(q) == Steps(q, {Leaf(t) : t \in Types})
Next == d < Depth /\ d' = d + 1 /\ UNCHANGED <<bind, opt, w>> /\ (IF Walks = 1 THEN e' \in Succ(e) ELSE \E k \in {RandomElement({s.k : s \in Succ(e)})} : \E q \in {RandomElement({s \in Succ(e) : s.k = k})} : e' = q)
Spec == Init /\ [][Next]_vars
\* more is allowed where more is allowed; a name bound by a catch clause may always be thrown again
Monotone == \A f \in {"allow", "any", "unknown", "rethrow"} : Throw(e, [opt EXCEPT ![f] = FALSE]) = "none" => Throw(e, [opt EXCEPT ![f] = TRUE]) = "none"
Strict == (T(e) \cap {"S", "U", "O", "Z"} # {} /\ ~Rethrown(e)) => (Throw(e, opt) # "none" /\ Reject(e, opt) # "none")
Emit == PrintT(ToJson([e |-> e, bind |-> bind, opt |-> opt, t |-> T(e), throw |-> Throw(e, opt), reject |-> Reject(e, opt)]))
=============================================================================
