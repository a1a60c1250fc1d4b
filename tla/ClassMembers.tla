----------------------------- MODULE ClassMembers -----------------------------
(* prefer-readonly: class A, and class B inside it, are given members and code that uses them; at each moment some members could be readonly. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxMembers, MaxUses, Walks
VARIABLES ms,     \* members: [cls, kind, vis, ro, init]
          us,     \* uses: [m (member), pos, how]
          only,   \* option: only members initialised to lambdas
          inner,  \* where B stands: none, ctor, method, init
          w
vars == <<ms, us, only, inner, w>>
Kinds == {"prop", "static", "hash", "hashstatic", "param"}
Vis(k) == IF k \in {"hash", "hashstatic"} THEN {"hash"} ELSE {"private", "public", "protected"}
Ro == {"no", "readonly", "accessor"}
Inits(k) == IF k = "param" THEN {"none", "lambda", "value"} ELSE {"none", "lambda", "value", "fn"}
Member(c) == UNION {[cls : {c}, kind : {k}, vis : Vis(k), ro : IF k = "param" THEN {"no", "readonly"} ELSE Ro, init : Inits(k)] : k \in Kinds}
Writes == {"assign", "update", "destruct", "loop", "delete"}
Reads == {"use", "deep", "source"}     \* read; a write to something inside it; what is destructured or looped over
Hows == Writes \cup Reads
PosA == {"ctor", "ctorfn", "method", "init", "staticblock"}
PosB == {"Bctor", "Bctorfn", "Bmethod", "Binit"}
Static(m) == m.kind \in {"static", "hashstatic"}
\* code in the body of the constructor of the member's own class
Home(m, u) == u.pos = (IF m.cls = "A" THEN "ctor" ELSE "Bctor")
Candidate(m) == m.vis \in {"private", "hash"} /\ m.ro = "no" /\ (only => m.init = "lambda")
Modified(i) == \E j \in 1..Len(us) : us[j].m = i /\ us[j].how \in Writes /\ (Static(ms[i]) \/ ~Home(ms[i], us[j]))
InCtor(i) == \E j \in 1..Len(us) : us[j].m = i /\ us[j].how \in Writes /\ Home(ms[i], us[j]) /\ ~Static(ms[i])
Reported == {i \in 1..Len(ms) : Candidate(ms[i]) /\ ~Modified(i)}
R(s) == RandomElement(s)
Classes == IF inner = "none" THEN {"A"} ELSE {"A", "B"}
Positions(m) == (IF m.cls = "A" THEN PosA ELSE {}) \cup (IF inner = "none" THEN {} ELSE PosB)
CanDelete(m) == m.vis # "hash"
Use(i, p, h) == us' = Append(us, [m |-> i, pos |-> p, how |-> h])
Init == ms = <<>> /\ us = <<>> /\ w \in 1..Walks /\ only \in (IF Walks = 1 THEN BOOLEAN ELSE {R(1..5) = 1}) /\ inner \in (IF Walks = 1 THEN {"none", "ctor", "method", "init"} ELSE {R({"none", "ctor", "method", "init"})})
Mine(m) == IF Walks = 1 THEN m.vis \in {"private", "hash"} /\ m.ro = "no" /\ m.init \in {"none", "lambda"} ELSE R(1..4) < 4 => m.vis \in {"private", "hash"} /\ m.ro = "no"
AddMember == Len(ms) < MaxMembers /\ us = <<>> /\ UNCHANGED <<us, only, inner, w>> /\
             (IF Walks = 1 THEN \E c \in Classes : \E m \in Member(c) : (Len(ms) = 1 => Mine(m) /\ Mine(ms[1])) /\ ms' = Append(ms, m)
              ELSE \E c \in {R(Classes)} : \E m \in {R({x \in Member(c) : Mine(x)})} : ms' = Append(ms, m))
AddUse == Len(us) < MaxUses /\ ms # <<>> /\ UNCHANGED <<ms, only, inner, w>> /\
          (IF Walks = 1 THEN \E i \in 1..Len(ms) : \E p \in Positions(ms[i]), h \in Hows : (h = "delete" => CanDelete(ms[i])) /\ (Len(ms) + Len(us) >= 2 => h \in {"assign", "use", "destruct"} /\ us = <<>>) /\ Use(i, p, h)
           ELSE \E i \in {R(1..Len(ms))} : \E p \in {R(Positions(ms[i]))}, h \in {IF R(1..3) = 1 THEN R(Reads) ELSE R(IF CanDelete(ms[i]) THEN Writes ELSE Writes \ {"delete"})} : Use(i, p, h))
\* a walk gathers members first
Next == IF Walks = 1 THEN AddMember \/ AddUse ELSE IF us = <<>> /\ Len(ms) < MaxMembers /\ (ms = <<>> \/ R(1..4) > 1) THEN AddMember ELSE AddUse
Spec == Init /\ [][Next]_vars
\* more code never makes another member reportable; a look changes nothing
Shrinks == [][ms' = ms => Reported' \subseteq Reported]_vars
Looks == [][ms' = ms /\ us' # us /\ us'[Len(us')].how \in Reads => Reported' = Reported]_vars
Never == \A i \in Reported : ms[i].ro = "no" /\ ms[i].vis # "public"
Emit == ms # <<>> => PrintT(ToJson([ms |-> ms, us |-> us, only |-> only, inner |-> inner, rep |-> Reported, ctor |-> {i \in 1..Len(ms) : InCtor(i)}]))
=============================================================================
