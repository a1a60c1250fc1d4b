-------------------------------- MODULE Box --------------------------------
(* How the command line shows one report (cmd/tsgolint/main.go printDiagnostic): its 1-based line and column, and a box with
   the lines from the one before the range to the one after it, less their common indentation, with the range underlined.
   A text is a sequence of characters, each given by its class:
     0 one byte        1 blank (one byte)   2 CR   3 LF   4 line or paragraph separator (three bytes)
     5 two bytes       6 three bytes        7 four bytes (two UTF-16 units)   8 blank of two bytes   9 blank of three bytes
   Positions are byte offsets, columns are UTF-16 units. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils

CONSTANTS MaxLen, Alphabet, Most       \* Most: how many lines a box may show

Log == IF IOEnv.LOG = "" THEN <<>> ELSE ndJsonDeserialize(IOEnv.LOG)
Bytes(c) == CASE c \in {0, 1, 2, 3} -> 1 [] c \in {5, 8} -> 2 [] c \in {4, 6, 9} -> 3 [] OTHER -> 4
Units(c) == IF c = 7 THEN 2 ELSE 1
Blank(c) == c \in {1, 2, 3, 4, 8, 9}

(* ---- a reader walks through the text, character by character ---- *)
\* the place of character i: [at |-> byte offset, line |-> 0-based, col |-> UTF-16 column]
Step(p, c, next) ==
    [at |-> p.at + Bytes(c),
     line |-> IF c \in {3, 4} \/ (c = 2 /\ next # 3) THEN p.line + 1 ELSE p.line,
     col |-> IF c \in {3, 4} \/ (c = 2 /\ next # 3) THEN 0 ELSE p.col + Units(c)]
Walk(t) == FoldLeftDomain(LAMBDA ps, i : Append(ps, Step(ps[i], t[i], IF i < Len(t) THEN t[i + 1] ELSE -1)), <<[at |-> 0, line |-> 0, col |-> 0]>>, t)

\* ps: the places of all characters of t and of its end
Place(ps, off) == CHOOSE p \in ToSet(ps) : p.at = off
OnLine(t, ps, l) == {i \in DOMAIN t : ps[i].line = l}
Inked(t, ps, l) == {i \in OnLine(t, ps, l) : ~Blank(t[i])}
LineAt(ps, l) == Min({p.at : p \in {q \in ToSet(ps) : q.line = l}})
Box(t, s, e) ==
    LET ps == TLCEval(Walk(t))
        last == ps[Len(ps)].line
        b == Place(ps, s)
        z == Place(ps, e)
        from == IF b.line = 0 THEN 0 ELSE b.line - 1
        to == IF z.line = last THEN last ELSE z.line + 1
        ink == TLCEval([l \in from .. to |-> Inked(t, ps, l)])
        starts == TLCEval([l \in from .. to |-> LineAt(ps, l)])
        inked == {l \in from .. to : ink[l] # {}}
        first == [l \in inked |-> ps[Min(ink[l])].at]
        end == [l \in inked |-> ps[Max(ink[l]) + 1].at]
        indent == IF inked = {} THEN 0 ELSE Min({first[l] - starts[l] : l \in inked})
        \* [number, shown from, to, underlined from, to]; an empty range of the text is given as 0, 0
        Cut(x, y) == IF x < y THEN <<x, y>> ELSE <<0, 0>>
        row(l) == IF l \notin inked THEN <<l + 1, 0, 0, 0, 0>>
                  ELSE LET u == Cut(IF s > first[l] THEN s ELSE first[l], IF e < end[l] THEN e ELSE end[l])
                       IN <<l + 1, starts[l] + indent, end[l], u[1], u[2]>>
    IN [line |-> b.line + 1, col |-> b.col + 1, big |-> to - from >= Most, rows |-> IF to - from >= Most THEN <<>> ELSE [i \in 1 .. to - from + 1 |-> row(from + i - 1)]]

(* ---- shown for each logged text and range ---- *)
VARIABLES t, s, e, k
vars == <<t, s, e, k>>
InitLog == k = 1 /\ t = <<>> /\ s = 0 /\ e = 0
Show == k <= Len(Log) /\ k' = k + 1 /\ UNCHANGED <<t, s, e>>
SpecLog == InitLog /\ [][Show]_vars
Emit == k <= Len(Log) => PrintT(ToJson([k |-> k, box |-> Box(Log[k].t, Log[k].s, Log[k].e)]))

(* ---- the definitions, on all small texts ---- *)
Grow == /\ Len(t) < MaxLen /\ k = 0 /\ \E c \in Alphabet : t' = Append(t, c)
        /\ UNCHANGED <<s, e, k>>
Pick == /\ k = 0 /\ k' = 1 /\ t' = t /\ \E i, j \in 1 .. Len(t) + 1 : i <= j /\ LET ps == Walk(t) IN s' = ps[i].at /\ e' = ps[j].at
SpecSmall == t = <<>> /\ s = 0 /\ e = 0 /\ k = 0 /\ [][Grow \/ Pick]_vars
Sane == k = 1 =>
    LET b == Box(t, s, e)
        ps == Walk(t)
        rows == {b.rows[i] : i \in DOMAIN b.rows}
        under == UNION {{i \in DOMAIN t : r[4] <= ps[i].at /\ ps[i].at < r[5]} : r \in rows}
        shown == UNION {{i \in DOMAIN t : r[2] <= ps[i].at /\ ps[i].at < r[3]} : r \in rows}
        within == {i \in DOMAIN t : s <= ps[i].at /\ ps[i].at < e}
    IN \/ b.big
       \/ /\ under \subseteq shown
          /\ under \subseteq within
          \* what is in the range and not blank is underlined, and shown with everything not blank around it
          /\ \A i \in within : ~Blank(t[i]) => i \in under
          /\ \A i \in DOMAIN t : ~Blank(t[i]) /\ ps[i].line + 1 \in {r[1] : r \in rows} => i \in shown
          \* no line terminator is shown, and line numbers rise by one
          /\ \A i \in shown : t[i] \notin {3}
          /\ \A i \in DOMAIN b.rows : i > 1 => b.rows[i][1] = b.rows[i - 1][1] + 1
          /\ b.line \in {r[1] : r \in rows}
=============================================================================
