--------------------------------- MODULE Gen ---------------------------------
(* Typing: behaviours of the user, printed as inputs for the real library.  *)
(* GenSpec enumerates every exact template; SimNext samples and mistypes.   *)
EXTENDS Inputs, Json, IOUtils

Plan == JsonDeserialize(IOEnv.PLAN)      \* sequence of [f |-> family, n |-> samples]
FamSeq == [i \in 1..Len(Plan) |-> Plan[i].f]

VARIABLES fam, tpl, text, n
vars == <<fam, tpl, text, n>>

Say(f, s) == PrintT("INPUT " \o ToJson([f |-> f, k |-> "text", in |-> s]))

(* ------------------------------------------------ enumeration --------- *)
GenInit == /\ fam \in {FamSeq[i] : i \in 1..Len(Plan)}
           /\ tpl \in 1..Len(Exact(fam))
           /\ text = <<>> /\ n = 0
Slots == Exact(fam)[tpl]
TypePiece == /\ n < Len(Slots)
             /\ \E p \in 1..Len(Slots[n + 1]) : text' = text \o Slots[n + 1][p]
             /\ n' = n + 1
             /\ UNCHANGED <<fam, tpl>>
Submit == /\ n = Len(Slots)
          /\ n' = n + 1
          /\ Say(fam, text)
          /\ UNCHANGED <<fam, tpl, text>>
GenNext == TypePiece \/ Submit

(* ------------------------------------------------ sampling ------------ *)
Pick(s) == s[RandomElement(1..Len(s))]
RandomText(f) == LET t == Pick(Loose(f)) IN Concat([i \in 1..Len(t) |-> Pick(t[i])])
RECURSIVE Mistype(_, _, _)
Mistype(f, s, k) ==
  IF k = 0 THEN s
  ELSE LET i == IF s = <<>> THEN 0 ELSE RandomElement(1..Len(s))
           c == Pick(Alphabet(f))
           r == CASE RandomElement(1..6) = 1 -> Upto(s, i) \o <<c>> \o From(s, i + 1)       \* insert after i
                  [] RandomElement(1..5) = 1 -> Upto(s, i - 1) \o From(s, i + 1)              \* drop
                  [] RandomElement(1..4) = 1 -> IF i = 0 THEN <<c>> ELSE [s EXCEPT ![i] = c]
                  [] RandomElement(1..3) = 1 -> IF i = 0 THEN s ELSE Upto(s, i) \o From(s, i) \* double
                  [] RandomElement(1..2) = 1 -> Upto(s, i)                                    \* truncate
                  [] OTHER -> IF i = 0 \/ i = Len(s) THEN s ELSE [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
       IN Mistype(f, r, k - 1)
Total == FoldLeft(LAMBDA a, p : a + p.n, 0, Plan)
(* which family the sample number k belongs to *)
FamOf(k) == LET step(acc, p) == IF acc.f = "" /\ k <= acc.sum + p.n THEN [f |-> p.f, sum |-> acc.sum]
                                ELSE [acc EXCEPT !.sum = @ + p.n]
            IN FoldLeft(step, [f |-> "", sum |-> 0], Plan).f
SimInit == fam = "" /\ tpl = 0 /\ text = <<>> /\ n = 0
SimNext == /\ n < Total
           /\ n' = n + 1
           /\ fam' = FamOf(n + 1)
           /\ tpl' = RandomElement({0, 0, 1, 2} \cup {3})
           /\ text' = LET t == RandomText(fam') IN Mistype(fam', t, IF tpl' > 2 THEN 0 ELSE tpl')
           /\ Say(fam', text')
=============================================================================
