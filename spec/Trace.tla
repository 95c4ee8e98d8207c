-------------------------------- MODULE Trace --------------------------------
(* Trace validation: every recorded session of the real library must be a   *)
(* behaviour of the specification.  A record holds one input, what the      *)
(* oracles say about it, and, for every configuration, what each entry      *)
(* point answered and what the accepted value emits.  One step consumes one *)
(* record; a record which the specification does not allow is printed and   *)
(* counted.  Clauses selects which obligations are enforced.                *)
EXTENDS Validators, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.TRACE)
CfgTable == JsonDeserialize(IOEnv.CFGS)          \* family -> sequence of configurations
Clauses == LET s == JsonDeserialize(IOEnv.CLAUSES) IN {s[i] : i \in 1..Len(s)}
On(clause) == clause \in Clauses

VARIABLES l,        \* records consumed
          failed    \* how many of them the specification does not allow
vars == <<l, failed>>

(* ------------------------------------------------ one session --------- *)
Verdicts(r, kind) == {r[kind][n] : n \in DOMAIN r[kind]}
BadWords == {"panic", "abort", "hang"}
Main(r) == CHOOSE d \in Verdicts(r, "d") : TRUE

(* every obligation, by name; e: the specified outcome, r: the recorded one *)
Broken(e, r) ==
  LET D == Verdicts(r, "d")
      W == Verdicts(r, "w")
      S == Verdicts(r, "s")
      X == Verdicts(r, "x")
      has(k) == k \in DOMAIN r
      acc == "ok" \in D \cup W \cup S \cup X
  IN
  (* no entry point, emission or serialization panics, aborts or hangs *)
  (IF On("total") /\ ( \/ (D \cup W \cup S \cup X) \cap BadWords # {}
                       \/ has("rt") /\ r.rt = "panic"
                       \/ has("sb") /\ {r.sb, r.sp} \cap {"panic", "err/panic", "panic/err", "eq/panic", "panic/eq", "neq/panic", "panic/neq"} # {}
                       \/ has("ser") /\ r.ser.t = "panic"
                       \/ has("ex") /\ "panic" \in DOMAIN r.ex)
   THEN {"total"} ELSE {})
  \cup
  (* all directly callable entry points give one verdict *)
  (IF On("doors") /\ Cardinality(D \cup W) > 1 THEN {"doors"} ELSE {})
  \cup
  (* deserialization doors accept exactly what parsing accepts *)
  (IF On("serde_in") /\ D # {} /\ \E s \in S : (s = "ok") # (Main(r) = "ok") THEN {"serde_in"} ELSE {})
  \cup
  (* content only deserialization takes is accepted when the specification accepts it *)
  (IF On("serde_only") /\ D = {} /\ \E s \in S : (s = "ok") # e.ok THEN {"serde_only"} ELSE {})
  \cup
  (* all accepted values are equal *)
  (IF On("same_value") /\ r.q # <<>> THEN {"same_value"} ELSE {})
  \cup
  (* the Result wrapper carries the direct verdict *)
  (IF On("wrapper") /\ ( \/ D # {} /\ \E x \in X : x # Main(r)
                         \/ D = {} /\ S # {} /\ \E x \in X, s \in S : (x = "ok") # (s = "ok"))
   THEN {"wrapper"} ELSE {})
  \cup
  (* a rejection as a response is a bad request which tells the error *)
  (IF On("web") /\ has("rsp") /\ r.rsp # (IF Main(r) = "ok" THEN "accepted" ELSE "400 and the message") THEN {"web"} ELSE {})
  \cup
  (* accepted exactly when the specification accepts *)
  (IF On("verdict") /\ \E x \in D \cup W : (x = "ok") # e.ok THEN {"verdict"} ELSE {})
  \cup
  (IF On("serde_verdict") /\ (\E s \in S : (s = "ok") # e.ok \/ (D = {} /\ \E z \in X : (z = "ok") # e.ok)) THEN {"serde_verdict"} ELSE {})
  \cup
  (* the value is the one denoted *)
  (IF On("value") /\ e.ok /\ has("v") /\ r.v # e.v THEN {"value"} ELSE {})
  \cup
  (* a reported error is one which is true of the input *)
  (IF On("error") /\ ~e.ok /\ \E x \in (D \cup W \cup X) : x # "ok" /\ x # "refused" /\ x \notin BadWords /\ x \notin e.errs
   THEN {"error"} ELSE {})
  \cup
  (* canonical text, and its resubmission *)
  (IF On("emit") /\ e.ok /\ e.text # NoText /\ (IF has("em") THEN r.em # e.text ELSE has("v")) THEN {"emit"} ELSE {})
  \cup
  (IF On("roundtrip") /\ has("rt") /\ r.rt # e.back THEN {"roundtrip"} ELSE {})
  \cup
  (IF On("extra") /\ e.ok /\ e.ex # NoEx /\ has("ex") /\ r.ex # e.ex THEN {"extra"} ELSE {})
  \cup
  (* serialized form, and what deserializing it gives *)
  (IF On("ser") /\ e.ok /\ e.ser # NoSer /\ has("ser") /\ r.ser # e.ser THEN {"ser"} ELSE {})
  \cup
  (IF On("ser_back") /\ has("sb") /\ (r.sb # e.back \/ (r.sp # e.back /\ r.sp # e.lossless)) THEN {"ser_back"} ELSE {})

(* ------------------------------------------------ options ------------- *)
Fams == DOMAIN CfgTable
IndexOfCfg(fam, c) == LET t == CfgTable[fam] IN SelectInSeq(t, LAMBDA x : x = c)
(* <<option, allow, must, disallow>>: configurations differing in one option *)
Triples == [fam \in Fams |->
   {<<t[1], i, IndexOfCfg(fam, [CfgTable[fam][i] EXCEPT ![t[1]] = t[3]]),
               IndexOfCfg(fam, [CfgTable[fam][i] EXCEPT ![t[1]] = t[4]])>> :
        t \in Tri(fam), i \in 1..Len(CfgTable[fam])}]
TriplesOf(fam) == {t \in Triples[fam] : t[3] # 0 /\ t[4] # 0 /\
    \E o \in Tri(fam) : o[1] = t[1] /\ CfgTable[fam][t[2]][t[1]] = o[2]}
UsefulTriples == [fam \in Fams |-> TriplesOf(fam)]

SameContent(a, b) == \A k \in DOMAIN a \cap DOMAIN b : a[k] = b[k]
Accepted(r) == "ok" \in Verdicts(r, "d")
(* The option only filters what Allow accepts, and splits it in two, unless *)
(* the input does not contain what the option constrains (then both) or     *)
(* mixes it (then none); what those are is said by the specification.       *)
PartitionBroken(rec, res, facts) ==
  {t \in UsefulTriples[rec.f] :
     /\ t[2] \in DOMAIN res /\ t[3] \in DOMAIN res /\ t[4] \in DOMAIN res
     /\ LET a == res[t[2]]  m == res[t[3]]  d == res[t[4]]
            spec(i) == Expect(rec.f, rec.k, CfgTable[rec.f][i], facts).ok
        IN \/ (Accepted(m) \/ Accepted(d)) /\ ~Accepted(a)
           \/ Accepted(m) /\ Accepted(d) /\ ~(spec(t[3]) /\ spec(t[4]))
           \/ Accepted(a) /\ ~Accepted(m) /\ ~Accepted(d) /\ (spec(t[3]) \/ spec(t[4]))
           \/ Accepted(a) /\ Accepted(m) /\ ~SameContent(a.v, m.v)
           \/ Accepted(a) /\ Accepted(d) /\ ~SameContent(a.v, d.v)}

(* two declarations of the same options, one of them by leaving them out, are one *)
Twins == [fam \in Fams |-> {p \in (1..Len(CfgTable[fam])) \X (1..Len(CfgTable[fam])) : p[1] < p[2] /\ CfgTable[fam][p[1]] = CfgTable[fam][p[2]]}]
(* two-valued options: what Disallow accepts, Allow accepts *)
Duos == [fam \in Fams |->
   {t \in {<<o, i, IndexOfCfg(fam, [CfgTable[fam][i] EXCEPT ![o] = "Disallow"])>> : o \in TwoValued(fam), i \in 1..Len(CfgTable[fam])} :
      t[3] # 0 /\ CfgTable[fam][t[2]][t[1]] = "Allow"}]
DefaultBroken(rec, res) == {p \in Twins[rec.f] : p[1] \in DOMAIN res /\ p[2] \in DOMAIN res /\ res[p[1]] # res[p[2]]}
FilterBroken(rec, res) ==
  {t \in Duos[rec.f] : /\ t[2] \in DOMAIN res /\ t[3] \in DOMAIN res
                       /\ Accepted(res[t[3]])
                       /\ (~Accepted(res[t[2]]) \/ ~SameContent(res[t[2]].v, res[t[3]].v))}

(* ------------------------------------------------ steps --------------- *)
AboutRejected == {"error"}
AboutAccepted == {"value", "emit", "extra", "ser", "roundtrip", "ser_back"}
AboutBoth == {"verdict", "serde_verdict"}
NeedExpect == Clauses \cap (AboutRejected \cup AboutAccepted \cup AboutBoth \cup {"serde_only"}) # {}
Answers(r) == Verdicts(r, "d") \cup Verdicts(r, "w") \cup Verdicts(r, "x")
(* sessions which need not be compared with what the specification expects *)
Concerned(r) == \/ Clauses \cap AboutBoth # {}
                \/ Clauses \cap AboutAccepted # {} /\ "v" \in DOMAIN r
                \/ Clauses \cap AboutRejected # {} /\ Answers(r) # {"ok"}
                \/ On("serde_only") /\ DOMAIN r.d = {}
NoExpect == Reject({})
Failures(rec) ==
  LET facts == Facts(rec.f, rec.k, rec.in, rec.o)
      all == 1..Len(rec.g)
      judged == IF NeedExpect THEN {g \in all : Concerned(rec.g[g].r)} ELSE {}
      sessions == UNION {{<<g, rec.g[g].c[i]>> : i \in 1..Len(rec.g[g].c)} : g \in judged}
      bad == {<<s, Broken(Expect(rec.f, rec.k, CfgTable[rec.f][s[2]], facts), rec.g[s[1]].r)>> : s \in sessions}
             \cup {<<<<g, rec.g[g].c[1]>>, Broken(NoExpect, rec.g[g].r)>> : g \in all \ judged}
      res == [c \in UNION {{rec.g[g].c[i] : i \in 1..Len(rec.g[g].c)} : g \in all} |-> rec.g[CHOOSE g \in all : \E i \in 1..Len(rec.g[g].c) : rec.g[g].c[i] = c].r]
      about(cfg, what) == [i |-> rec.i, f |-> rec.f, cfg |-> cfg, group |-> 0, clauses |-> {what}]
  IN {[i |-> rec.i, f |-> rec.f, cfg |-> b[1][2], group |-> b[1][1], clauses |-> b[2]] : b \in {x \in bad : x[2] # {}}}
     \cup (IF On("partition") THEN {about(t[2], "partition " \o t[1]) : t \in PartitionBroken(rec, res, facts)} \cup {about(t[2], "filter " \o t[1]) : t \in FilterBroken(rec, res)} ELSE {})
     \cup (IF On("default") THEN {about(p[1], "default") : p \in DefaultBroken(rec, res)} ELSE {})
     \cup (IF On("total") /\ "same" \in DOMAIN rec /\ ~rec.same THEN {about(1, "again")} ELSE {})

Init == l = 0 /\ failed = 0
Step == /\ l < Len(Recs)
        /\ l' = l + 1
        /\ LET F == Failures(Recs[l + 1])
           IN /\ failed' = failed + Cardinality(F)
              /\ \A x \in F : PrintT("FAIL " \o ToJson(x))
Next == Step
Spec == Init /\ [][Next]_vars

AllConsumed == TLCGet("stats").diameter = Len(Recs) + 1
=============================================================================
