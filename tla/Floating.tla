------------------------------ MODULE Floating ------------------------------
(* no-floating-promises: an expression grows around its operands; at each moment, written as a statement, it is either harmless or has a   *)
(* floating promise at some place in it.  Types are sets of parts: P a promise, A an array of promises, H a thenable, S a promise of an     *)
(* allow-listed class, U undefined, Z zero, N any other.                                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Wide, Opts,
          Walks   \* 1: everything; more: so many random walks
VARIABLES e, d, opt, w
vars == <<e, d, opt, w>>

Leaves == {"p", "pcall", "new", "iife", "safecall", "arr", "tup", "n", "ncall", "u", "uarr", "h", "s"}
Leaf(k) == [k |-> k]
LeafType(k) == CASE k \in {"p", "pcall", "new", "iife", "safecall"} -> {"P"} [] k \in {"arr", "tup"} -> {"A"} [] k \in {"n", "ncall"} -> {"N"} [] k = "u" -> {"P", "U"} [] k = "uarr" -> {"A", "U"} [] k = "h" -> {"H"} [] k = "s" -> {"S"}
Handlers == {"none", "fn", "non", "spread"}
Un(k, x) == [k |-> k, x |-> x]
Un2(k, x, h) == [k |-> k, x |-> x, h |-> h]
Bin(k, x, y) == [k |-> k, x |-> x, y |-> y]
Norm(t) == (t \ (IF "P" \in t THEN {"S"} ELSE {})) \ (IF "N" \in t THEN {"Z"} ELSE {})
Falsy(t) == (t \cap {"U", "Z"}) \cup (IF "N" \in t THEN {"Z"} ELSE {})
RECURSIVE T(_)
T(q) ==
  CASE q.k \in Leaves -> LeafType(q.k)
    [] q.k = "catch" -> {"P"} \cup (T(q.x) \cap {"U"})
    [] q.k = "then" -> (IF "H" \in T(q.x) THEN {"H"} ELSE {"P"}) \cup (T(q.x) \cap {"U"})
    [] q.k = "finally" -> {"P"} \cup (T(q.x) \cap {"U"})
    [] q.k = "void" -> {"U"}
    [] q.k = "await" -> {IF a \in {"P", "S", "H"} THEN "N" ELSE a : a \in T(q.x)}
    [] q.k \in {"paren", "assign"} -> T(q.x)
    [] q.k = "comma" -> T(q.y)
    [] q.k = "cond" -> Norm(T(q.x) \cup T(q.y))
    [] q.k = "and" -> LET l == T(q.x) IN IF l \subseteq {"U", "Z"} THEN l ELSE (Falsy(l) \cup T(q.y)) \ (IF "N" \in T(q.y) THEN {"Z"} ELSE {})
    [] q.k = "or" -> LET l == T(q.x) IN IF Falsy(l) = {} THEN l ELSE Norm((l \ {"U", "Z"}) \cup T(q.y))
    [] q.k = "qq" -> LET l == T(q.x) IN IF "U" \notin l THEN l ELSE Norm((l \ {"U"}) \cup T(q.y))
Promise(t, o) == IF t = {"S"} /\ o.safe THEN FALSE ELSE t \cap {"P", "S"} # {} \/ (o.then /\ "H" \in t)
Nil == [kind |-> "nil", at |-> <<>>]
Here(kind) == [kind |-> kind, at |-> <<>>]
At(i, v) == IF v.kind = "nil" THEN v ELSE [v EXCEPT !.at = <<i>> \o @]
RECURSIVE V(_, _)
V(q, o) ==
  LET First(i, v, j, z) == IF v.kind # "nil" THEN At(i, v) ELSE At(j, z) IN
  CASE q.k = "paren" -> At(1, V(q.x, o))
    [] q.k = "assign" -> Nil
    [] q.k = "comma" -> First(1, V(q.x, o), 2, V(q.y, o))
    [] q.k = "void" /\ ~o.void -> At(1, V(q.x, o))
    [] OTHER ->
       IF "A" \in T(q) THEN Here("array")
       ELSE IF q.k = "await" \/ ~Promise(T(q), o) THEN Nil
       ELSE CASE q.k = "catch" /\ q.h # "none" -> IF q.h = "fn" THEN Nil ELSE IF q.h = "non" THEN Here("useless") ELSE Here("plain")
              [] q.k = "then" /\ q.h \in {"fn", "non", "spread"} -> IF q.h = "fn" THEN Nil ELSE IF q.h = "non" THEN Here("useless") ELSE Here("plain")
              [] q.k = "finally" -> LET v == V(q.x, o) IN IF v.kind = "nil" THEN v ELSE Here(v.kind)
              [] q.k = "cond" -> First(2, V(q.y, o), 1, V(q.x, o))
              [] q.k \in {"and", "or", "qq"} -> First(1, V(q.x, o), 2, V(q.y, o))
              [] OTHER -> Here("plain")
RECURSIVE Core(_)
Core(q) == IF q.k = "paren" THEN Core(q.x) ELSE q
Stmt(q, o) == IF (o.iife /\ Core(q).k = "iife") \/ (o.safecall /\ Core(q).k = "safecall") THEN Nil ELSE V(q, o)

Init == w \in 1..Walks /\ e \in (IF Walks = 1 THEN {Leaf(k) : k \in Leaves} ELSE {Leaf(RandomElement(Leaves))}) /\ d = 0 /\ opt \in (IF Walks = 1 THEN Opts ELSE {RandomElement(Opts)})
\* methods are asked of what has them
CanCatch(q) == "P" \in T(q) /\ T(q) \subseteq {"P", "U"}
CanThen(q) == CanCatch(q) \/ T(q) = {"H"}
CanFinally(q) == CanCatch(q) \/ T(q) = {"S"}
Succ(q) ==
  {Un2("catch", q, h) : h \in {z \in Handlers : CanCatch(q)}}
  \cup {Un2("then", q, h) : h \in {z \in Handlers : CanThen(q)}}
  \cup (IF CanFinally(q) THEN {Un("finally", q)} ELSE {})
  \cup {Un(k, q) : k \in {"void", "await", "paren", "assign"}}
  \cup LET B == {Leaf(l) : l \in Wide} \cup {Un2("catch", Leaf(l), "fn") : l \in Wide \cap {"p", "pcall", "u"}}
         K == {"comma", "cond", "and", "or", "qq"} IN
     {Bin(k, q, b) : k \in K, b \in B} \cup {Bin(k, b, q) : k \in K, b \in B}
Next == d < Depth /\ d' = d + 1 /\ UNCHANGED <<opt, w>> /\ (IF Walks = 1 THEN \E q \in Succ(e) : e' = q ELSE e' = RandomElement(Succ(e)))
Spec == Init /\ [][Next]_vars
\* awaiting, or handling the rejection, leaves only arrays to complain about; void does when it may; parentheses say nothing
Await == Stmt(Un("await", e), opt).kind \in {"nil", "array"}
Void == opt.void => Stmt(Un("void", e), opt) = Nil
Caught == CanCatch(e) => Stmt(Un2("catch", e, "fn"), opt) = Nil
Parens == Stmt(Un("paren", e), opt) = At(1, Stmt(e, opt))
More == \A o \in {opt} : (~o.then => (Stmt(e, o).kind # "nil" => Stmt(e, [o EXCEPT !.then = TRUE]).kind # "nil"))
Emit == PrintT(ToJson([e |-> e, o |-> opt, v |-> Stmt(e, opt), arr |-> "A" \in T(IF Core(e).k = "void" THEN Core(e).x ELSE e)]))
AllOpts == [void : BOOLEAN, iife : BOOLEAN, then : BOOLEAN, safe : BOOLEAN, safecall : BOOLEAN]
OneOpt == {[void |-> v, iife |-> ~v, then |-> TRUE, safe |-> v, safecall |-> TRUE] : v \in BOOLEAN} \cup {[void |-> TRUE, iife |-> FALSE, then |-> FALSE, safe |-> FALSE, safecall |-> FALSE]}
Few == {"p", "n", "u", "arr"}
=============================================================================
