------------------------------ MODULE VoidExpr ------------------------------
\* An expression that may give nothing, wrapped from the inside out, until it comes to the place where its value goes.
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Depth
VARIABLES core, path, ender, fv, opts
vars == <<core, path, ender, fv, opts>>
Cores == {"void", "undefined", "never", "any", "number", "mixed", "promise"}
Base(c) == CASE c = "never" -> {} [] c = "mixed" -> {"number", "void"} [] OTHER -> {c}
Wraps == {"paren", "and", "or", "nullish", "then", "else", "both", "await"}
Mix(S) == IF "any" \in S THEN {"any"} ELSE S
Wrap(w, T) == CASE w \in {"paren", "both"} -> T
                [] w = "and" -> Mix(T \cup {"false"})
                [] w = "or" -> Mix(T \cup {"true"})
                [] w \in {"nullish", "then", "else"} -> Mix(T \cup {"number"})
                [] w = "await" -> {IF t = "promise" THEN "void" ELSE t : t \in T}
RECURSIVE Type(_)
Type(i) == IF i = 0 THEN Base(core) ELSE Wrap(path[i], Type(i - 1))
Nothing(T) == T \in {{"void"}, {"undefined"}}
Enders == {"stmt", "commaLeft", "arrow", "final", "return", "void", "other"}
Opts == [arrow : BOOLEAN, op : BOOLEAN, fn : BOOLEAN]
Open == ender = "open"
Init == core \in Cores /\ path = <<>> /\ ender = "open" /\ fv = FALSE /\ opts \in Opts
Grow == /\ Open /\ Len(path) < Depth
        /\ \E w \in Wraps :
             /\ (IF w = "paren" /\ path # <<>> THEN path[Len(path)] # "paren" ELSE TRUE)
             /\ (w = "both" => Nothing(Type(Len(path))))
             /\ (w = "await" => \A i \in 1..Len(path) : path[i] # "await")
             /\ path' = Append(path, w)
        /\ UNCHANGED <<core, ender, fv, opts>>
End == /\ Open
       /\ ender' \in Enders
       /\ fv' \in (IF ender' \in {"arrow", "final", "return"} THEN BOOLEAN ELSE {FALSE})
       /\ UNCHANGED <<core, path, opts>>
Next == Grow \/ End
Spec == Init /\ [][Next]_vars
\* what no-confusing-void-expression says of something at position i (0: the core) that gives nothing; <<message, is there an edit>>
Awaited(i) == \E j \in i + 1..Len(path) : path[j] = "await"
None == <<"", FALSE>>
Whole == Type(Len(path))
Confusing(i) ==
  LET other == IF opts.op THEN <<"invalidVoidExprWrapVoid", TRUE>> ELSE <<"invalidVoidExpr", FALSE>> IN
  CASE Awaited(i) -> other
    [] ender \in {"stmt", "commaLeft"} -> None
    [] ender = "void" -> (IF opts.op THEN None ELSE other)
    [] ender = "other" -> other
    [] ender = "arrow" -> (IF opts.arrow \/ (opts.fn /\ fv) THEN None
                           ELSE IF opts.op THEN <<"invalidVoidExprArrowWrapVoid", TRUE>> ELSE <<"invalidVoidExprArrow", Nothing(Whole)>>)
    [] OTHER -> (IF opts.fn /\ fv THEN None
                 ELSE IF opts.op THEN <<"invalidVoidExprReturnWrapVoid", TRUE>>
                 ELSE <<IF ender = "final" THEN "invalidVoidExprReturnLast" ELSE "invalidVoidExprReturn", Nothing(Whole)>>)
At(i) == IF Nothing(Type(i)) THEN Confusing(i) ELSE None
\* asked at the core, at each await, and at the second branch of each "both"
Rep == [i \in 1..Len(path) + 1 |-> IF i = 1 THEN At(0) ELSE IF path[i - 1] \in {"await", "both"} THEN At(i - 1) ELSE None]
\* what no-meaningless-void-operator says of `void` before the whole
Meaning == IF ender # "void" THEN "" ELSE IF Whole = {} THEN "never" ELSE IF Whole \subseteq {"void", "undefined"} THEN "always" ELSE ""
\* ---- what it comes to.  bits: what each wrapper's other operand is; value of the expression: a name, or "throws"
CoreValue == CASE core \in {"void", "undefined", "promise"} -> "undefined" [] core = "never" -> "throws" [] OTHER -> "1"
RECURSIVE Value(_, _)
Value(i, b) ==
  IF i = 0 THEN CoreValue
  ELSE LET v == Value(i - 1, b) IN
       CASE path[i] \in {"paren", "await"} -> v
         [] path[i] = "and" -> (IF b[i] THEN v ELSE "false")
         [] path[i] = "or" -> (IF b[i] THEN "true" ELSE v)
         [] path[i] = "nullish" -> (IF b[i] THEN "5" ELSE v)
         [] path[i] = "then" -> (IF b[i] THEN v ELSE "7")
         [] path[i] = "else" -> (IF b[i] THEN "7" ELSE v)
         [] path[i] = "both" -> (IF b[i] THEN v ELSE "undefined")
\* a place that gives nothing gives undefined: leaving its value out (braces, a bare return, void) changes nothing
Bits == [1..Len(path) -> BOOLEAN]
Promised == core = "promise" /\ \A i \in 1..Len(path) : path[i] # "await"
EditsKeep == ~Open => \A i \in 1..Len(path) + 1 : Rep[i][2] =>
   /\ (ender \in {"arrow", "final", "return"} /\ ~opts.op /\ ~Awaited(i - 1) => \A b \in Bits : Value(Len(path), b) \in {"undefined", "throws"})
   /\ Nothing(Type(i - 1))
\* and where no edit is offered for a return or an arrow, one that leaves the value out would change something (unless the value is never there)
EditsWhereTheyKeep == ~Open => \A i \in 1..Len(path) + 1 : Rep[i][1] \in {"invalidVoidExprArrow", "invalidVoidExprReturnLast", "invalidVoidExprReturn"} /\ ~Rep[i][2] => \E b \in Bits : Value(Len(path), b) \notin {"undefined", "throws"}
VoidKeeps == ~Open /\ Meaning # "" => \A b \in Bits : Value(Len(path), b) \in {"undefined", "throws"} 
\* under all options off, a value that is nothing may only go to a statement or be discarded by a comma
Strict == ~Open /\ opts = [arrow |-> FALSE, op |-> FALSE, fn |-> FALSE] /\ Nothing(Base(core)) => (Rep[1][1] = "" <=> ender \in {"stmt", "commaLeft"} /\ ~Awaited(0))
Emit == ~Open => PrintT(ToJson([core |-> core, path |-> path, ender |-> ender, fv |-> fv, opts |-> opts, rep |-> Rep, meaning |-> Meaning,
                                table |-> IF Promised THEN <<>> ELSE [b \in Bits |-> Value(Len(path), b)]]))
=============================================================================
