------------------------------ MODULE MacroTrace ------------------------------
(* Validates what the compiler answered: one step consumes one declaration.  *)
EXTENDS Macro, Json, IOUtils, TLC
Feats == LET s == JsonDeserialize(IOEnv.FEATS) IN {s[i] : i \in 1..Len(s)}
Recs == ndJsonDeserialize(IOEnv.TRACE)      \* [d |-> declaration, ok |-> compiled, id |-> n]
VARIABLES l, failed
vars == <<l, failed>>
Init == l = 0 /\ failed = 0
Step == /\ l < Len(Recs)
        /\ l' = l + 1
        /\ LET r == Recs[l + 1] ok == Accepted(r.d, Feats) IN
           IF ok = r.ok THEN UNCHANGED failed
           ELSE failed' = failed + 1 /\ PrintT("MISMATCH " \o ToJson([id |-> r.id, specified |-> ok, compiled |-> r.ok]))
Next == Step
Done == l = Len(Recs)
Sound == TRUE
=============================================================================
