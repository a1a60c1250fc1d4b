------------------------------ MODULE Locality ------------------------------
(* What a rule says about a piece of a program is the same wherever the piece stands (internal/linter/linter.go runs one set
   of listeners per file; the rules keep stacks and tables in closures, internal/rules).
   A file is a sequence of self-contained pieces with fillers between them.  A rule is modelled by what it can remember: a
   stack that it pushes on entering and pops on leaving a construct, and a table of what it found out about types, which are
   shared by all pieces.  Each piece asks about one type inside `depth` constructs. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS MaxPieces, Pieces, Fillers, Types

\* a piece: [id, depth |-> constructs around the question, type |-> the type it asks about, early |-> whether the construct ends early (return, throw, label)]
Verdict(p) == <<p.type, p.depth>>          \* what the rule says of the piece on its own
Length(p) == 10 + p.depth                    \* any lengths do
FillerLength(f) == CASE f = "none" -> 0 [] f = "blank" -> 3 [] f = "wide" -> 7 [] OTHER -> 5

VARIABLES file, at, stack, table, todo, out, pos
vars == <<file, at, stack, table, todo, out, pos>>
Init == file = <<>> /\ at = 0 /\ stack = <<>> /\ table = <<>> /\ todo = <<>> /\ out = <<>> /\ pos = 0
Write == /\ at = 0 /\ Len(file) < MaxPieces
         /\ \E p \in Pieces, f \in Fillers : file' = Append(file, [p |-> p, f |-> f])
         /\ UNCHANGED <<at, stack, table, todo, out, pos>>
Begin == at = 0 /\ Len(file) > 0 /\ at' = 1 /\ todo' = <<"filler">> /\ UNCHANGED <<file, stack, table, out, pos>>
Piece == file[at].p
SkipFiller == /\ at > 0 /\ todo = <<"filler">> /\ pos' = pos + FillerLength(file[at].f)
              /\ todo' = [i \in 1 .. Piece.depth |-> "enter"] \o <<"ask">> \o [i \in 1 .. Piece.depth |-> "leave"] /\ UNCHANGED <<file, at, stack, table, out>>
Event == /\ at > 0 /\ todo # <<>> /\ todo # <<"filler">> /\ todo' = Tail(todo)
         /\ CASE Head(todo) = "enter" -> stack' = Append(stack, pos) /\ UNCHANGED <<table, out>>
              [] Head(todo) = "leave" -> stack' = Front(stack) /\ UNCHANGED <<table, out>>
              [] Head(todo) = "ask" ->
                    LET known == {i \in DOMAIN table : table[i][1] = Piece.type}
                        answer == IF known # {} THEN table[CHOOSE i \in known : TRUE][2] ELSE Piece.type
                    IN /\ out' = Append(out, [at |-> pos, says |-> <<answer, Len(stack)>>])
                       /\ table' = IF known # {} THEN table ELSE Append(table, <<Piece.type, answer>>)
                       /\ stack' = stack
         /\ UNCHANGED <<file, at, pos>>
Leave == /\ at > 0 /\ todo = <<>> /\ at <= Len(file) /\ pos' = pos + Length(Piece)
         /\ at' = at + 1 /\ todo' = (IF at < Len(file) THEN <<"filler">> ELSE <<>>) /\ UNCHANGED <<file, stack, table, out>>
Next == Write \/ Begin \/ (at <= Len(file) /\ (SkipFiller \/ Event \/ Leave))
Spec == Init /\ [][Next]_vars

Offset(i) == FoldLeftDomain(LAMBDA n, j : IF j < i THEN n + FillerLength(file[j].f) + Length(file[j].p) ELSE IF j = i THEN n + FillerLength(file[j].f) ELSE n, 0, file)
Local == \A i \in DOMAIN out : out[i] = [at |-> Offset(i), says |-> Verdict(file[i].p)]
Balanced == (at > 0 /\ (todo = <<>> \/ todo = <<"filler">>)) => stack = <<>>
Done == at = Len(file) + 1 /\ Len(file) > 0
AllAsked == Done => Len(out) = Len(file)
Emit == Done => PrintT(ToJson([i \in DOMAIN file |-> [piece |-> file[i].p.id, filler |-> file[i].f]]))

ThePieces == {[id |-> 1, depth |-> 0, type |-> 1], [id |-> 2, depth |-> 2, type |-> 1], [id |-> 3, depth |-> 1, type |-> 2]}
TheFillers == {"none", "blank", "wide", "comment", "code"}
TwoFillers == {"none", "wide"}
=============================================================================
