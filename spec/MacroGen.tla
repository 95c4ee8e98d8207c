------------------------------- MODULE MacroGen -------------------------------
(* Authors of declarations: they choose a validator, write parameters one    *)
(* after another (correct ones and mistaken ones), lay out the struct the    *)
(* way these options imply, or make a mistake there, and demand traits.      *)
(* Step 1..Len(All): the enumerated declarations; after that random ones.    *)
EXTENDS Macro, Json, IOUtils, TLC

Feats == LET s == JsonDeserialize(IOEnv.FEATS) IN {s[i] : i \in 1..Len(s)}
Plan == JsonDeserialize(IOEnv.PLAN)      \* [samples |-> n]

Words(n, ws) == [i \in 1..Len(ws) |-> L(n, <<P(ws[i])>>)]
Either(n, w) == <<L(n, <<P(w)>>), V(n, Ident(w))>>
Num2(n, s) == <<V(n, Whole(s)), L(n, <<Q(Whole(s))>>)>>
MinMax(a, b, more) == <<V("min", a), V("max", b)>> \o more
Incl(b) == <<V("inclusive", Bool(b))>>

(* ------------------------------------------------ correct parameters --- *)
GoodRange(v) ==
  LET lits == IF v = "number" THEN <<Float("0.5"), Float("2.25"), Whole("3")>>
              ELSE <<Whole("0"), Whole("5"), Whole("200")>>
      bounded == << <<>>, <<V("min", lits[1])>>, <<V("max", lits[2])>>, MinMax(lits[1], lits[2], <<>>), MinMax(lits[1], lits[2], Incl(FALSE)),
                    MinMax(lits[2], lits[2], Incl(TRUE)), MinMax(lits[2], lits[2], <<>>), Incl(FALSE), <<L("max", <<Q(lits[3])>>), L("inclusive", <<Q(Bool(TRUE))>>)>> >>
      signed == IF v \in {"number", "signed_integer"} THEN << MinMax(Neg("5"), Neg("4"), <<>>), MinMax(Neg("128"), Whole("127"), <<>>) >> ELSE <<>>
      exprs == <<R(lits[1], "..", lits[2]), R(lits[1], "..=", lits[2]), R(lits[2], "..=", lits[2]), R(lits[1], "..", NoLit), R(NoLit, "..", lits[2]),
                 R(NoLit, "..=", lits[2]), R(NoLit, "..", NoLit)>>
  IN [bounds |-> bounded \o signed, exprs |-> exprs]
Limits(n, v) == LET g == GoodRange(v) IN [i \in 1..Len(g.bounds) |-> L(n, g.bounds[i])] \o [i \in 1..Len(g.exprs) |-> L(n, <<g.exprs[i]>>)]
                                         \o <<VR(n, g.exprs[1]), VR(n, g.exprs[2])>>
Good(v, n) ==
  LET kind == Option(v, n) IN
  CASE kind = "tri" -> Words(n, <<"Must", "Allow", "Disallow">>) \o <<V(n, Ident("Must"))>>
    [] kind = "allow" -> Words(n, <<"Allow", "Disallow">>) \o <<V(n, Ident("Disallow"))>>
    [] kind = "case" -> Words(n, <<"Any", "Upper", "Lower">>) \o <<V(n, Ident("Upper"))>>
    [] kind = "bool" -> <<V(n, Bool(TRUE)), V(n, Bool(FALSE)), L(n, <<Q(Bool(FALSE))>>)>>
    [] kind = "number" -> Num2(n, "0") \o Num2(n, "3") \o <<V(n, Whole("18446744073709551615"))>>
    [] kind = "length" -> << L(n, <<>>), L(n, <<V("min", Whole("1"))>>), L(n, <<V("max", Whole("0"))>>), L(n, MinMax(Whole("2"), Whole("2"), <<>>)), L(n, MinMax(Whole("1"), Whole("9"), <<V("trimmed_min", Whole("1"))>>)),
                             L(n, <<V("trimmed_min", Whole("2")), L("max", <<Q(Whole("2"))>>)>>), L(n, <<V("trimmed_min", Whole("1")), V("min", Whole("2"))>>) >>
    [] kind = "range" -> LET i == Limits("Inside", v) o == Limits("Outside", v) IN
                         [x \in 1..Len(i) |-> L(n, <<i[x]>>)] \o [x \in 1..Len(o) |-> L(n, <<o[x]>>)] \o <<L(n, <<P("Unlimited")>>)>>
    [] kind = "limits" -> Limits(n, v)
    [] kind = "countries" -> <<L(n, <<P("TW")>>), L(n, <<P("TW"), P("US")>>), L(n, <<P("GB"), P("JP"), P("CN")>>)>>
    [] kind = "pattern" -> <<L(n, <<Q(Str("^a+$"))>>), V(n, Str("[0-9]{2,4}")), V(n, Str(""))>>
    [] kind = "separator" -> <<L(n, <<P("Disallow")>>), L(n, <<L("Must", <<Q(Byte("-"))>>)>>), L(n, <<L("Allow", <<Q(Byte(":"))>>)>>), L(n, <<V("Must", Byte("."))>>), L(n, <<V("Allow", Byte("-"))>>)>>
    [] kind = "serde" -> <<V(n, Bool(FALSE)), P(n), V(n, Bool(TRUE)), L(n, <<P("Serialize")>>), L(n, <<P("Deserialize")>>), L(n, <<P("Deserialize"), P("Serialize")>>)>>
    [] kind = "rocket" -> <<V(n, Bool(FALSE)), P(n), V(n, Bool(TRUE)), L(n, <<P("FromParam")>>), L(n, <<P("FromFormField")>>), L(n, <<P("FromFormField"), P("FromParam")>>)>>
    [] OTHER -> <<>>

(* ------------------------------------------------ mistaken parameters -- *)
BadBounds(v) ==
  LET lits == IF v = "number" THEN <<Float("0.5"), Float("2.25"), Whole("3")>> ELSE <<Whole("0"), Whole("5"), Whole("200")>> IN
  << MinMax(lits[2], lits[1], <<>>), MinMax(lits[2], lits[2], Incl(FALSE)), MinMax(lits[1], lits[1], <<V("inclusive", Bool(FALSE))>>), <<V("min", lits[1]), V("min", lits[1])>>,
     <<V("max", lits[1]), V("min", lits[1]), V("max", lits[1])>>,
     <<V("least", lits[1])>>, <<P("min")>>, <<V("min", Bool(TRUE))>>, <<V("inclusive", Whole("1"))>>, <<V("inclusive", Bool(TRUE)), V("inclusive", Bool(TRUE))>>,
     <<V("min", Str("1"))>>, <<V("trimmed_min", Whole("1"))>>, <<L("min", <<Q(Whole("1")), Q(Whole("2"))>>)>>, <<V("max", Whole("99999999999999999999999999999999999999999"))>>,
     <<V("max", Neg("1"))>>, <<V("max", Neg("40000"))>>, <<V("max", Whole("32768"))>>, <<V("max", Whole("65536"))>>, <<V("min", Float("1.5"))>> >>
BadExprs == << R(Whole("5"), "..", Whole("5")), R(Whole("5"), "..=", Whole("4")), R(Whole("0"), "..", Whole("70000")), R(Whole("6"), "..", Whole("5")), R(Whole("0"), "..", Str("a")), R(Neg("1"), "..", Whole("3")) >>
BadLimits(n, v) == LET b == BadBounds(v) IN [i \in 1..Len(b) |-> L(n, b[i])] \o [i \in 1..Len(BadExprs) |-> L(n, <<BadExprs[i]>>)]
                                            \o <<VR(n, BadExprs[1]), VR(n, BadExprs[2]), P(n), V(n, Whole("1"))>>
Bad(v, n) ==
  LET kind == Option(v, n)
      shapes == <<V(n, Whole("1")), V(n, Str("Must")), L(n, <<>>), L(n, <<P("must")>>), L(n, <<P("Must"), P("Must")>>), V(n, Bool(TRUE)), L(n, <<V("Must", Whole("1"))>>)>>
  IN
  CASE kind = "tri" -> shapes \o <<P(n), L(n, <<P("Any")>>), V(n, Ident("allow")), L(n, <<P("Inside")>>)>>
    [] kind = "allow" -> shapes \o <<P(n), L(n, <<P("Must")>>), V(n, Ident("Must"))>>
    [] kind = "case" -> shapes \o <<P(n), L(n, <<P("upper")>>), L(n, <<P("Allow")>>)>>
    [] kind = "bool" -> <<P(n), V(n, Whole("0")), L(n, <<>>), L(n, <<P("True")>>), V(n, Ident("yes")), L(n, <<Q(Bool(TRUE)), Q(Bool(TRUE))>>)>>
    [] kind = "number" -> <<P(n), L(n, <<>>), V(n, Neg("1")), V(n, Float("1.5")), V(n, Whole("18446744073709551616")), V(n, Bool(TRUE)), L(n, <<Q(Whole("1")), Q(Whole("2"))>>), V(n, Str("1"))>>
    [] kind = "length" -> << P(n), V(n, Whole("3")), L(n, <<Q(Whole("3"))>>), L(n, MinMax(Whole("3"), Whole("2"), <<>>)), L(n, <<V("trimmed_min", Whole("3")), V("max", Whole("2"))>>),
                             L(n, <<V("trimmed_min", Whole("3")), V("min", Whole("2"))>>), L(n, MinMax(Whole("1"), Whole("9"), <<V("trimmed_min", Whole("2"))>>)), L(n, <<V("min", Whole("1")), V("min", Whole("1"))>>),
                             L(n, <<V("trimmed_min", Whole("1")), V("trimmed_min", Whole("1"))>>), L(n, <<V("max", Whole("1")), V("max", Whole("1"))>>),
                             L(n, <<V("trimmed_max", Whole("1"))>>), L(n, <<V("min", Neg("1"))>>), L(n, <<V("inclusive", Bool(TRUE))>>) >>
    [] kind = "range" -> LET i == BadLimits("Inside", v) o == BadLimits("Outside", v) IN
                         [x \in 1..Len(i) |-> L(n, <<i[x]>>)] \o [x \in 1..Len(o) |-> L(n, <<o[x]>>)]
                         \o <<L(n, <<P("Limited")>>), P(n), L(n, <<>>), L(n, <<V("min", Whole("1"))>>), V(n, Ident("Unlimited")), L(n, <<P("Unlimited"), P("Unlimited")>>), L(n, <<R(Whole("0"), "..", Whole("5"))>>)>>
    [] kind = "limits" -> BadLimits(n, v) \o <<L(n, <<L("Inside", <<V("min", Whole("1"))>>)>>), L(n, <<P("Unlimited")>>)>>
    [] kind = "countries" -> <<L(n, <<>>), P(n), V(n, Ident("TW")), L(n, <<P("TW"), P("TW")>>), L(n, <<P("TW"), P("US"), P("TW")>>), L(n, <<P("XX")>>), L(n, <<P("TW"), P("Taiwan")>>), L(n, <<Q(Str("TW"))>>)>>
    [] kind = "pattern" -> <<P(n), L(n, <<Q(Str("["))>>), V(n, Str("*a")), V(n, Str("a{2,1}")), L(n, <<Q(Str("(?z)"))>>), L(n, <<>>), V(n, Whole("1")), L(n, <<Q(Str("a")), Q(Str("a"))>>)>>
    [] kind = "separator" -> <<P(n), V(n, Ident("Disallow")), L(n, <<P("Allow")>>), L(n, <<P("Must")>>), L(n, <<L("Must", <<Q(Str("-"))>>)>>), L(n, <<L("Disallow", <<Q(Byte("-"))>>)>>), L(n, <<V("Must", Str("-"))>>),
                               L(n, <<V("Allow", Whole("45"))>>), L(n, <<>>), L(n, <<L("Allow", <<>>)>>), L(n, <<V("Disallow", Byte("-"))>>), L(n, <<L("Any", <<Q(Byte("-"))>>)>>), L(n, <<P("Disallow"), P("Disallow")>>)>>
    [] kind = "serde" -> <<L(n, <<>>), L(n, <<P("serialize")>>), L(n, <<P("Serialize"), P("Serialize")>>), L(n, <<P("Deserialize"), P("Deserialize")>>), V(n, Ident("Serialize")), V(n, Whole("1")), L(n, <<Q(Bool(TRUE))>>), L(n, <<P("FromParam")>>)>>
    [] kind = "rocket" -> <<L(n, <<>>), L(n, <<P("Serialize")>>), L(n, <<P("FromParam"), P("FromParam")>>), L(n, <<P("FromFormField"), P("FromFormField")>>), V(n, Whole("1")), L(n, <<Q(Bool(FALSE))>>)>>
    [] OTHER -> <<L(n, <<P("Allow")>>), P(n), V(n, Whole("1")), L(n, <<V("min", Whole("1"))>>), V(n, Bool(FALSE))>>

(* ------------------------------------------------ layouts -------------- *)
Types == <<"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "f32", "f64", "bool", "String", "Vec<u8>", "HashSet<u8>", "Option<u16>", "Option<String>",
           "IpAddr", "Ipv4Addr", "Ipv6Addr", "Host", "Protocol", "Byte", "Bit", "Url", "Version", "VersionReq", "PhoneNumber", "HashMap<Id, PhoneNumber>", "Plain">>
Layer(shape, fs) == [shape |-> shape, fields |-> fs]
(* ways to get it wrong (some of them are not wrong after all) *)
Layouts(x) ==
  LET fs == x.fields
      drop == [i \in 1..Len(fs) |-> Layer(x.shape, Upto(fs, i - 1) \o From(fs, i + 1))]
      other == [i \in 1..Len(fs) |-> Layer(x.shape, [fs EXCEPT ![i].t = IF fs[i].t = "bool" THEN "u16" ELSE "bool"])]
      name == [i \in 1..Len(fs) |-> Layer(x.shape, [fs EXCEPT ![i].n = IF @ = "" THEN "" ELSE @ \o "x"])]
      retype == [i \in 1..Len(Types) |-> Layer(x.shape, [fs EXCEPT ![1].t = Types[i]])]
      mix == IF x.shape = "tuple" THEN <<Layer("named", <<F("value", fs[1].t)>>), Layer("tuple", fs \o fs), Layer("named", <<F("0x", fs[1].t)>>)>>
             ELSE <<Layer("tuple", [i \in 1..Len(fs) |-> F("", fs[i].t)]), Layer("named", Reverse(fs)), Layer("named", fs \o <<F("more", "u8")>>), Layer("named", fs \o <<fs[1]>>),
                    Layer("tuple", <<F("", fs[1].t)>>), Layer("named", <<fs[1]>>)>>
  IN drop \o other \o name \o retype \o <<mix[1], mix[2]>> \o From(mix, IF x.shape = "tuple" THEN 4 ELSE 3)
     \o <<Layer("unit", <<>>), Layer("enum", fs), Layer("union", fs), Layer("generic", fs), Layer("tuple", <<>>), Layer("named", <<>>)>>

Needs == << <<>>, <<"Serialize">>, <<"Deserialize">>, <<"Serialize", "Deserialize">> >>
RocketNeeds == << <<"FromParam">>, <<"FromFormField">> >>

Decl(wrap, v, ps, lay, need) == [wrap |-> wrap, v |-> v, ps |-> ps, shape |-> lay.shape, fields |-> lay.fields, need |-> need]
(* the layout these parameters imply, as far as they are readable *)
Readable(v, ps) == SelectSeq(ps, LAMBDA m : ParamOk(v, m, "f64", Feats \cup {"serde", "rocket", "full"}))
Right(v, ps) == Layout(v, Readable(v, ps))
Minimal(v) == IF v = "regex" THEN <<L("regex", <<Q(Str("a"))>>)>> ELSE <<>>
Known == SetToSeq(Validators)
Names(v) == SetToSeq(OptionsOf(v))
Strangers(v) == SetToSeq((OptionNames \cup {"unknown"}) \ OptionsOf(v))
With(v, m) == IF v = "regex" /\ m.n # "regex" THEN Minimal(v) \o <<m>> ELSE <<m>>
FlatMap(s, G(_)) == FoldLeft(LAMBDA a, x : a \o G(x), <<>>, s)

(* ------------------------------------------------ enumeration ---------- *)
Bare(v) == Decl("one", v, Minimal(v), Right(v, Minimal(v)), <<>>)
Singles(v) == FlatMap(Names(v), LAMBDA n : LET ms == Good(v, n) \o Bad(v, n) IN [i \in 1..Len(ms) |-> Decl("one", v, With(v, ms[i]), Right(v, With(v, ms[i])), <<>>)])
Unknowns(v) == FlatMap(Strangers(v), LAMBDA n : LET ms == Bad(v, n) IN [i \in 1..(IF n = "unknown" THEN Len(ms) ELSE 1) |-> Decl("one", v, With(v, ms[i]), Right(v, With(v, ms[i])), <<>>)])
(* a parameter given twice, alike and unlike, next to one another and apart *)
Repeats(v) == FlatMap(Names(v), LAMBDA n : LET g == Good(v, n)
                                               twice == <<g[1], g[1]>>  unlike == <<g[1], g[2]>> apart == <<g[1], V("serde", Bool(FALSE)), g[2]>>
                                               D(ps) == LET q == IF v = "regex" /\ n # "regex" THEN Minimal(v) \o ps ELSE ps IN Decl("one", v, q, Right(v, q), <<>>)
                                           IN <<D(twice), D(unlike)>> \o (IF n = "serde" THEN <<>> ELSE <<D(apart)>>))
(* two options at once *)
Brief(v, n) == Upto(Good(v, n), IF Len(Good(v, n)) > 4 THEN 4 ELSE Len(Good(v, n)))
Pairs(v) == FlatMap(Names(v), LAMBDA n : FlatMap(Names(v), LAMBDA m :
              IF n = m \/ n \in {"rocket", "serde"} \/ m \in {"rocket", "serde"} THEN <<>>
              ELSE LET a == Brief(v, n) b == Brief(v, m)
                   IN [k \in 1..Len(a) * Len(b) |-> LET ps == <<a[(k - 1) \div Len(b) + 1], b[((k - 1) % Len(b)) + 1]>>
                                                    IN Decl("one", v, ps, Right(v, ps), <<>>)]))
Wraps(v) == [i \in 1..6 |-> Decl(<<"none", "path", "twice", "value", "named", "other">>[i], v, Minimal(v), Right(v, Minimal(v)), <<>>)]
Shapes(v) == LET ls == Layouts(Right(v, Minimal(v))) IN [i \in 1..Len(ls) |-> Decl("one", v, Minimal(v), ls[i], <<>>)]
Demands(v) == FlatMap(<< <<>>, <<V("serde", Bool(FALSE))>>, <<P("serde")>>, <<V("serde", Bool(TRUE))>>, <<L("serde", <<P("Serialize")>>)>>, <<L("serde", <<P("Deserialize")>>)>>, <<L("serde", <<P("Deserialize"), P("Serialize")>>)>> >>,
                 LAMBDA ps : [i \in 1..3 |-> Decl("one", v, Minimal(v) \o ps, Right(v, Minimal(v)), Needs[i + 1])])
RocketDemands(v) == IF "rocket" \notin Feats THEN <<>> ELSE
                FlatMap(<< <<>>, <<V("rocket", Bool(FALSE))>>, <<P("rocket")>>, <<V("rocket", Bool(TRUE))>>, <<L("rocket", <<P("FromParam")>>)>>, <<L("rocket", <<P("FromFormField")>>)>>, <<L("rocket", <<P("FromFormField"), P("FromParam")>>)>> >>,
                 LAMBDA ps : [i \in 1..2 |-> Decl("one", v, Minimal(v) \o ps, Right(v, Minimal(v)), RocketNeeds[i])])
Clashes == FlatMap(<< [v |-> "domain", a |-> "ipv4", b |-> L("at_least_two_labels", <<P("Disallow")>>)], [v |-> "email", a |-> "ip", b |-> L("at_least_two_labels", <<P("Disallow")>>)],
                      [v |-> "number", a |-> "nan", b |-> L("range", <<L("Inside", <<V("min", Whole("1"))>>)>>)], [v |-> "number", a |-> "nan", b |-> L("range", <<L("Outside", <<V("min", Whole("1"))>>)>>)],
                      [v |-> "number", a |-> "nan", b |-> L("range", <<P("Unlimited")>>)] >>,
             LAMBDA x : FlatMap(<< <<>>, <<L("conflict", <<P("Allow")>>)>>, <<L("conflict", <<P("Disallow")>>)>> >>,
                          LAMBDA c : [i \in 1..3 |-> LET ps == <<L(x.a, <<P(<<"Must", "Allow", "Disallow">>[i])>>), x.b>> \o c IN Decl("one", x.v, ps, Right(x.v, ps), <<>>)]))
Mistakes == FlatMap(<<"IP", "ipv5", "mac", "integer", "validator", "Host">>, LAMBDA v : <<Decl("one", v, <<>>, Tuple("String"), <<>>)>>)
(* numbers at the edges of every integer type *)
Edges == FlatMap(SetToSeq(Signed \cup Unsigned), LAMBDA t :
           LET b == Bounds(t)
               lit(s, more) == LET c == ReadBig(s) up == IF more THEN 1 ELSE 0 IN Lit("int", c.neg, (IF c.neg THEN SubSeq(s, 2, Len(s)) ELSE s) \o (IF more THEN "0" ELSE ""))
               v == IF t \in Signed THEN "signed_integer" ELSE "unsigned_integer"
               D(m) == Decl("one", v, <<L("range", <<L("Inside", <<m>>)>>)>>, Tuple(t), <<>>)
           IN <<D(V("min", lit(b[1], FALSE))), D(V("max", lit(b[2], FALSE))), D(V("max", lit(b[2], TRUE)))>> \o (IF t \in Signed THEN <<D(V("min", lit(b[1], TRUE)))>> ELSE <<D(V("min", Neg("1")))>>))
AllOf(v) == <<Bare(v)>> \o Singles(v) \o Unknowns(v) \o Repeats(v) \o Pairs(v) \o Wraps(v) \o Shapes(v) \o Demands(v) \o RocketDemands(v)

(* ------------------------------------------------ random authors ------- *)
Pick(s) == s[RandomElement(1..Len(s))]
Chance(k) == RandomElement(1..k) = 1
RandomParam(v, n) == IF n \notin OptionsOf(v) \/ Chance(12) THEN Pick(Bad(v, n)) ELSE Pick(Good(v, n))
RECURSIVE RandomParams(_, _, _)
RandomParams(v, names, ps) ==
  IF names = <<>> THEN ps
  ELSE RandomParams(v, Tail(names), IF Chance(4) THEN ps
                                    ELSE IF ps # <<>> /\ Chance(3) THEN <<RandomParam(v, names[1])>> \o ps ELSE Append(ps, RandomParam(v, names[1])))
RandomDecl == LET v == Pick(Known)
                  more == IF Chance(15) THEN <<Pick(Strangers(v))>> ELSE IF Chance(15) THEN <<Pick(Names(v))>> ELSE <<>>
                  ps == RandomParams(v, SelectSeq(Names(v), LAMBDA n : "rocket" \in Feats \/ n # "rocket") \o more, <<>>)
                  qs == IF v = "regex" /\ Find(ps, "regex") = 0 THEN Minimal(v) \o ps ELSE ps
                  right == Right(v, qs)
                  lay == IF Chance(4) THEN Pick(Layouts(right)) ELSE right
              IN Decl("one", v, qs, lay, IF Chance(3) THEN Pick(Needs) ELSE <<>>)

VARIABLES left,      \* validators whose declarations are still to be written
          written,   \* random declarations so far
          decl       \* the declaration at hand
Say(d) == PrintT("DECL " \o ToJson(d))
SayAll(ds) == \A i \in 1..Len(ds) : Say(ds[i])
GenInit == left = Known /\ written = 0 /\ decl = Bare(Known[1])
Enumerate == /\ left # <<>>
             /\ SayAll(AllOf(left[1]))
             /\ left' = Tail(left)
             /\ UNCHANGED <<written, decl>>
Extra == /\ left = <<>> /\ written = 0
         /\ SayAll(Clashes \o Mistakes \o Edges)
         /\ written' = 1
         /\ UNCHANGED <<left, decl>>
Improvise == /\ left = <<>> /\ written > 0 /\ written <= Plan.samples
             /\ decl' = RandomDecl
             /\ Say(decl')
             /\ written' = written + 1
             /\ UNCHANGED left
GenNext == Enumerate \/ Extra \/ Improvise
=============================================================================
