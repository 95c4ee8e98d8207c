-------------------------------- MODULE Macro --------------------------------
(* The derive macro as a language: a declaration is an attribute list over   *)
(* a struct, and Accepted(d, feats) says whether it compiles.                *)
(*                                                                          *)
(* A parameter is a meta item, written like attributes are:                  *)
(*   P("x")           x                                                     *)
(*   V("x", lit)      x = lit                                               *)
(*   L("x", <<..>>)   x(.., ..)                                             *)
(* and inside a list there are also literals (Q) and ranges (R).             *)
EXTENDS Text

Lit(t, neg, s) == [t |-> t, neg |-> neg, s |-> s]
NoLit == Lit("", FALSE, "")
P(n) == [k |-> "path", n |-> n, v |-> NoLit, l |-> <<>>]
V(n, lit) == [k |-> "nv", n |-> n, v |-> lit, l |-> <<>>]
L(n, l) == [k |-> "list", n |-> n, v |-> NoLit, l |-> l]
Q(lit) == [k |-> "lit", n |-> "", v |-> lit, l |-> <<>>]
(* lo..hi, lo..=hi; an open end is NoLit *)
R(lo, op, hi) == [k |-> "range", n |-> op, v |-> NoLit, l |-> <<Q(lo), Q(hi)>>]
VR(n, r) == [k |-> "nvrange", n |-> n, v |-> NoLit, l |-> <<r>>]
Ident(s) == Lit("ident", FALSE, s)
Bool(b) == Lit("bool", FALSE, IF b THEN "true" ELSE "false")
Whole(s) == Lit("int", FALSE, s)
Neg(s) == Lit("int", TRUE, s)
Float(s) == Lit("float", FALSE, s)
NegFloat(s) == Lit("float", TRUE, s)
Str(s) == Lit("str", FALSE, s)
Byte(s) == Lit("byte", FALSE, s)

(* ------------------------------------------------ numbers -------------- *)
Bounds(t) == CASE t = "u8" -> <<"0", "255">> [] t = "i8" -> <<"-128", "127">>
               [] t = "u16" -> <<"0", "65535">> [] t = "i16" -> <<"-32768", "32767">>
               [] t = "u32" -> <<"0", "4294967295">> [] t = "i32" -> <<"-2147483648", "2147483647">>
               [] t \in {"u64", "usize"} -> <<"0", "18446744073709551615">>
               [] t \in {"i64", "isize"} -> <<"-9223372036854775808", "9223372036854775807">>
               [] t = "u128" -> <<"0", "340282366920938463463374607431768211455">>
               [] t = "i128" -> <<"-170141183460469231731687303715884105728", "170141183460469231731687303715884105727">>
Signed == {"i8", "i16", "i32", "i64", "i128", "isize"}
Unsigned == {"u8", "u16", "u32", "u64", "u128", "usize"}
Floats == {"f32", "f64"}
Big(neg, s) == LET d == Normal(C(s)) IN [neg |-> neg /\ d # <<48>>, d |-> d]
ReadBig(s) == IF C(s)[1] = 45 THEN Big(TRUE, SubSeq(s, 2, Len(s))) ELSE Big(FALSE, s)
(* a decimal with at most two places, in hundredths *)
Hundredths(lit) ==
  LET s == C(lit.s)
      dot == IndexOf(s, 46)
      i == IF dot = 0 THEN s ELSE Upto(s, dot - 1)
      f == IF dot = 0 THEN <<>> ELSE From(s, dot + 1)
      d == Normal(i \o SubSeq(f \o <<48, 48>>, 1, 2))
  IN [neg |-> lit.neg /\ d # <<48>>, d |-> d]
(* the literal is a number the type holds *)
Fits(t, lit) == IF t \in Floats THEN lit.t \in {"int", "float"}
                ELSE /\ lit.t = "int"
                     /\ (lit.neg => t \in Signed)        \* -0 is no unsigned literal either
                     /\ LET x == Big(lit.neg, lit.s)
                        IN IntLeq(ReadBig(Bounds(t)[1]), x) /\ IntLeq(x, ReadBig(Bounds(t)[2]))
Num(t, lit) == IF t \in Floats THEN Hundredths(lit) ELSE Big(lit.neg, lit.s)
(* x = 5, x = -5, x(5) *)
NumberOk(m, t) == \/ m.k = "nv" /\ m.v.t \in {"int", "float"} /\ Fits(t, m.v)
                  \/ m.k = "list" /\ Len(m.l) = 1 /\ m.l[1].k = "lit" /\ ~m.l[1].v.neg /\ m.l[1].v.t \in {"int", "float"} /\ Fits(t, m.l[1].v)
NumberOf(m) == IF m.k = "nv" THEN m.v ELSE m.l[1].v
BoolOk(m) == \/ m.k = "nv" /\ m.v.t = "bool"
             \/ m.k = "list" /\ Len(m.l) = 1 /\ m.l[1].k = "lit" /\ m.l[1].v.t = "bool"
BoolOf(m) == (IF m.k = "nv" THEN m.v ELSE m.l[1].v).s = "true"

(* ------------------------------------------------ named values --------- *)
(* x = Word, x(Word) *)
WordOf(m) == IF m.k = "nv" /\ m.v.t = "ident" THEN m.v.s
             ELSE IF m.k = "list" /\ Len(m.l) = 1 /\ m.l[1].k = "path" THEN m.l[1].n ELSE ""

Named(m) == m.k \in {"path", "nv", "list", "nvrange"}
Find(ms, n) == SelectInSeq(ms, LAMBDA m : m.n = n)          \* 0: left out
Distinct(ms) == \A i, j \in 1..Len(ms) : i # j => ms[i].n # ms[j].n

(* ------------------------------------------------ ranges --------------- *)
Ordered(t, lo, hi, incl) == IF incl THEN IntLeq(Num(t, lo), Num(t, hi)) ELSE IntLess(Num(t, lo), Num(t, hi))
RangeExprOk(r, t, feats) ==
  LET lo == r.l[1].v hi == r.l[2].v IN
  /\ "full" \in feats
  /\ ~lo.neg /\ ~hi.neg
  /\ lo # NoLit => Fits(t, lo)
  /\ hi # NoLit => Fits(t, hi)
  /\ lo # NoLit /\ hi # NoLit => Ordered(t, lo, hi, r.n = "..=")
BoundsOk(ms, t) ==
  LET a == Find(ms, "min") b == Find(ms, "max") i == Find(ms, "inclusive")
      incl == i = 0 \/ BoolOf(ms[i])
  IN /\ \A x \in 1..Len(ms) : /\ Named(ms[x])
                              /\ \/ ms[x].n \in {"min", "max"} /\ NumberOk(ms[x], t)
                                 \/ ms[x].n = "inclusive" /\ BoolOk(ms[x])
     /\ Distinct(ms)
     /\ a # 0 /\ b # 0 => Ordered(t, NumberOf(ms[a]), NumberOf(ms[b]), incl)
(* Inside(..), Inside = 0..5 *)
LimitsOk(m, t, feats) ==
  \/ m.k = "nvrange" /\ RangeExprOk(m.l[1], t, feats)
  \/ m.k = "list" /\ (IF Len(m.l) = 1 /\ m.l[1].k = "range" THEN RangeExprOk(m.l[1], t, feats) ELSE BoundsOk(m.l, t))
RangeOk(m, t, feats) ==
  /\ m.k = "list" /\ Len(m.l) = 1 /\ Named(m.l[1])
  /\ \/ m.l[1].n \in {"Inside", "Outside"} /\ LimitsOk(m.l[1], t, feats)
     \/ m.l[1].n = "Unlimited"

(* ------------------------------------------------ parameters ----------- *)
LengthOk(m) ==
  /\ m.k = "list"
  /\ \A i \in 1..Len(m.l) : Named(m.l[i]) /\ m.l[i].n \in {"min", "trimmed_min", "max"} /\ NumberOk(m.l[i], "usize")
  /\ Distinct(m.l)
  /\ LET at(n) == Find(m.l, n)
         leq(a, b) == at(a) # 0 /\ at(b) # 0 => Ordered("usize", NumberOf(m.l[at(a)]), NumberOf(m.l[at(b)]), TRUE)
     IN leq("trimmed_min", "min") /\ leq("min", "max") /\ leq("trimmed_min", "max")
FlagsOk(m, on, names) ==
  \/ m.k = "path" /\ on
  \/ m.k = "nv" /\ m.v.t = "bool" /\ (BoolOf(m) => on)
  \/ /\ m.k = "list" /\ on /\ m.l # <<>>
     /\ \A i \in 1..Len(m.l) : m.l[i].k = "path" /\ m.l[i].n \in names
     /\ Distinct(m.l)
Countries == {"TW", "US", "JP", "GB", "CN"}
CountriesOk(m) == /\ m.k = "list" /\ m.l # <<>>
                  /\ \A i \in 1..Len(m.l) : m.l[i].k = "path" /\ m.l[i].n \in Countries
                  /\ Distinct(m.l)
BadPatterns == {"[", "(", "*a", "a{2,1}", "(?z)", "b)"}
PatternOk(m) == \/ m.k = "nv" /\ m.v.t = "str" /\ m.v.s \notin BadPatterns
                \/ m.k = "list" /\ Len(m.l) = 1 /\ m.l[1].k = "lit" /\ m.l[1].v.t = "str" /\ m.l[1].v.s \notin BadPatterns
SeparatorOk(m) ==
  /\ m.k = "list" /\ Len(m.l) = 1
  /\ LET x == m.l[1] IN
     \/ x.k = "path" /\ x.n = "Disallow"
     \/ x.n \in {"Must", "Allow"} /\ x.k = "nv" /\ x.v.t = "byte"
     \/ x.n \in {"Must", "Allow"} /\ x.k = "list" /\ Len(x.l) = 1 /\ x.l[1].k = "lit" /\ x.l[1].v.t = "byte"

Plain == {"boolean", "url", "semver", "semver_req", "json"}
Bases == {"base32", "base32_decoded", "base64", "base64_decoded", "base64_url", "base64_url_decoded"}
Ips == {"ip", "ipv4", "ipv6"}
Integer == {"signed_integer", "unsigned_integer"}
Validators == Plain \cup Bases \cup Ips \cup Integer \cup
  {"host", "domain", "email", "mac_address", "uuid", "http_url", "http_ftp_url", "number", "byte", "bit", "text", "line", "length", "phone", "regex"}

(* the options of every validator, and what kind of value each takes *)
Option(v, n) ==
  CASE n = "serde" -> "serde"
    [] n = "rocket" -> IF v = "length" THEN "" ELSE "rocket"
    [] n = "local" -> IF v \in Ips \cup {"host", "domain", "email", "http_url", "http_ftp_url"} THEN "tri" ELSE ""
    [] n = "port" -> IF v \in Ips \cup {"host", "domain"} THEN "tri" ELSE ""
    [] n = "at_least_two_labels" -> IF v \in {"host", "domain", "email"} THEN "tri" ELSE ""
    [] n = "ipv4" -> IF v = "domain" THEN "tri" ELSE ""
    [] n = "ip" -> IF v = "email" THEN "tri" ELSE ""
    [] n \in {"comment", "non_ascii"} -> IF v = "email" THEN "allow" ELSE ""
    [] n = "conflict" -> IF v \in {"domain", "email", "number"} THEN "allow" ELSE ""
    [] n = "padding" -> IF v \in Bases THEN "tri" ELSE ""
    [] n = "case" -> IF v \in {"mac_address", "uuid"} THEN "case" ELSE ""
    [] n = "separator" -> IF v \in {"mac_address", "uuid"} THEN "separator" ELSE ""
    [] n = "range" -> IF v \in Integer \cup {"number"} THEN "range" ELSE IF v \in {"byte", "bit"} THEN "limits" ELSE ""
    [] n = "nan" -> IF v = "number" THEN "tri" ELSE ""
    [] n = "ignore_case" -> IF v = "byte" THEN "bool" ELSE ""
    [] n \in {"char_length", "byte_length"} -> IF v \in {"text", "line"} THEN "length" ELSE ""
    [] n \in {"min", "max"} -> IF v = "length" THEN "number" ELSE ""
    [] n = "countries" -> IF v = "phone" THEN "countries" ELSE ""
    [] n = "regex" -> IF v = "regex" THEN "pattern" ELSE ""
    [] OTHER -> ""
OptionNames == {"serde", "rocket", "local", "port", "at_least_two_labels", "ipv4", "ip", "comment", "non_ascii", "conflict", "padding", "case",
                "separator", "range", "nan", "ignore_case", "char_length", "byte_length", "min", "max", "countries", "regex"}
OptionsOf(v) == {n \in OptionNames : Option(v, n) # ""}

(* one parameter by itself; t: the type of the numbers of this validator *)
ParamOk(v, m, t, feats) ==
  LET kind == Option(v, m.n) IN
  /\ Named(m)
  /\ CASE kind = "tri" -> WordOf(m) \in {"Must", "Allow", "Disallow"}
       [] kind = "allow" -> WordOf(m) \in {"Allow", "Disallow"}
       [] kind = "case" -> WordOf(m) \in {"Any", "Upper", "Lower"}
       [] kind = "bool" -> BoolOk(m)
       [] kind = "number" -> NumberOk(m, "usize")
       [] kind = "length" -> LengthOk(m)
       [] kind = "range" -> RangeOk(m, t, feats)
       [] kind = "limits" -> LimitsOk(m, t, feats)
       [] kind = "countries" -> CountriesOk(m)
       [] kind = "pattern" -> PatternOk(m)
       [] kind = "separator" -> SeparatorOk(m)
       [] kind = "serde" -> FlagsOk(m, "serde" \in feats, {"Serialize", "Deserialize"})
       [] kind = "rocket" -> FlagsOk(m, "rocket" \in feats, {"FromFormField", "FromParam"})
       [] OTHER -> FALSE
(* the value of a named option, or its default *)
Setting(ps, n, default) == LET i == Find(ps, n) IN IF i = 0 THEN default ELSE WordOf(ps[i])
Is(ps, n, w, default) == Setting(ps, n, default) = w

(* options which contradict one another *)
Coherent(v, ps) ==
  /\ Distinct(ps)
  /\ ~(Find(ps, "char_length") # 0 /\ Find(ps, "byte_length") # 0)
  /\ v = "regex" => Find(ps, "regex") # 0
  /\ v = "length" /\ Find(ps, "min") # 0 /\ Find(ps, "max") # 0 =>
       Ordered("usize", NumberOf(ps[Find(ps, "min")]), NumberOf(ps[Find(ps, "max")]), TRUE)
  /\ LET clash == \/ v = "domain" /\ Is(ps, "ipv4", "Must", "Allow") /\ Is(ps, "at_least_two_labels", "Disallow", "Allow")
                  \/ v = "email" /\ Is(ps, "ip", "Must", "Allow") /\ Is(ps, "at_least_two_labels", "Disallow", "Allow")
                  \/ v = "number" /\ Is(ps, "nan", "Must", "Allow")
                       /\ LET i == Find(ps, "range") IN i # 0 /\ ps[i].l[1].n = "Inside"
     IN clash => Is(ps, "conflict", "Allow", "Disallow")

(* ------------------------------------------------ layouts -------------- *)
F(n, t) == [n |-> n, t |-> t]
Tuple(t) == [shape |-> "tuple", fields |-> <<F("", t)>>]
NamedFields(fs) == [shape |-> "named", fields |-> fs]
PortField(ps) == CASE Is(ps, "port", "Must", "Allow") -> <<F("port", "u16")>>
                   [] Is(ps, "port", "Allow", "Allow") -> <<F("port", "Option<u16>")>>
                   [] OTHER -> <<>>
(* whether a value is local is told where it is not settled beforehand *)
TellsLocal(ps) == Is(ps, "local", "Allow", "Allow") /\ ~Is(ps, "at_least_two_labels", "Allow", "Allow")
One(n, t, more) == IF more = <<>> THEN Tuple(t) ELSE NamedFields(<<F(n, t)>> \o more)
Layout(v, ps) ==
  LET local == IF TellsLocal(ps) THEN <<F("is_local", "bool")>> ELSE <<>>
      comments == IF Is(ps, "comment", "Allow", "Allow")
                  THEN [i \in 1..4 |-> F(<<"comment_before_local_part", "comment_after_local_part", "comment_before_domain_part", "comment_after_domain_part">>[i], "Option<String>")]
                  ELSE <<>>
      dp == CASE Is(ps, "ip", "Must", "Allow") -> "IpAddr" [] Is(ps, "ip", "Allow", "Allow") -> "Host" [] OTHER -> "String"
  IN
  CASE v = "ip" -> One("ip", "IpAddr", PortField(ps))
    [] v = "ipv4" -> One("ipv4", "Ipv4Addr", PortField(ps))
    [] v = "ipv6" -> One("ipv6", "Ipv6Addr", PortField(ps))
    [] v = "host" -> One("host", "Host", PortField(ps) \o local)
    [] v = "domain" -> One("domain", "String", PortField(ps) \o local
                           \o (IF TellsLocal(ps) /\ Is(ps, "ipv4", "Allow", "Allow") THEN <<F("is_ipv4", "bool")>> ELSE <<>>))
    [] v = "email" -> NamedFields(<<F("local_part", "String"), F("need_quoted", "bool"), F("domain_part", dp)>> \o comments \o local)
    [] v = "http_url" -> NamedFields(<<F("url", "Url"), F("is_https", "bool")>>)
    [] v = "http_ftp_url" -> NamedFields(<<F("url", "Url"), F("protocol", "Protocol")>>)
    [] v \in {"base32", "base64", "base64_url", "text", "line", "regex"} -> Tuple("String")
    [] v \in {"base32_decoded", "base64_decoded", "base64_url_decoded"} -> Tuple("Vec<u8>")
    [] v = "mac_address" -> Tuple("u64")
    [] v = "uuid" -> Tuple("u128")
    [] v = "boolean" -> Tuple("bool")
    [] v = "byte" -> Tuple("Byte")
    [] v = "bit" -> Tuple("Bit")
    [] v = "url" -> Tuple("Url")
    [] v = "semver" -> Tuple("Version")
    [] v = "semver_req" -> Tuple("VersionReq")
    [] v = "phone" -> LET i == Find(ps, "countries") IN Tuple(IF i # 0 /\ Len(ps[i].l) > 1 THEN "HashMap<Id, PhoneNumber>" ELSE "PhoneNumber")
    [] v = "number" -> Tuple("f64")
    [] v = "signed_integer" -> Tuple("i16")
    [] v = "unsigned_integer" -> Tuple("u16")
    [] v = "json" -> Tuple("Vec<u8>")
    [] v = "length" -> Tuple("Vec<u8>")
(* the types a validator of many types takes *)
Generic(v, feats) == CASE v = "number" -> Floats
                 [] v = "signed_integer" -> Signed
                 [] v = "unsigned_integer" -> Unsigned
                 [] v = "json" -> Signed \cup Unsigned \cup Floats \cup {"bool", "String", "Vec<u8>", "Option<u16>", "Option<String>", "HashSet<u8>", "IpAddr", "Ipv4Addr", "Ipv6Addr",
                                       "Url", "Version", "VersionReq", "Byte", "Bit", "PhoneNumber", "HashMap<Id, PhoneNumber>"}
                 [] v = "length" -> {"Vec<u8>", "HashSet<u8>", "HashMap<Id, PhoneNumber>"}
                 [] OTHER -> {}
LayoutOk(v, ps, d, feats) ==
  LET want == Layout(v, ps) IN
  /\ d.shape = want.shape
  /\ \/ {d.fields[i] : i \in 1..Len(d.fields)} = {want.fields[i] : i \in 1..Len(want.fields)} /\ Len(d.fields) = Len(want.fields)
     \/ Len(d.fields) = 1 /\ d.fields[1].n = "" /\ d.fields[1].t \in Generic(v, feats)
NumberType(v, d) == IF v \in {"byte", "bit"} THEN "u128"
                    ELSE IF Len(d.fields) = 1 /\ d.fields[1].t \in Generic(v, {}) /\ v \in Integer \cup {"number"} THEN d.fields[1].t ELSE "u8"

(* ------------------------------------------------ the verdict ---------- *)
(* d.wrap: how the attribute is written; d.need: traits which are demanded  *)
(* of the declared type                                                     *)
Provides(ps, feats, trait, n) == LET i == Find(ps, n) IN
  /\ n \in feats
  /\ i = 0 \/ ps[i].k = "path" \/ (ps[i].k = "nv" /\ BoolOf(ps[i])) \/ (ps[i].k = "list" /\ Find(ps[i].l, trait) # 0)
Accepted(d, feats) ==
  /\ d.wrap = "one"
  /\ d.v \in Validators
  /\ d.v = "json" => "serde" \in feats      \* a validator is there with its features
  /\ \A i \in 1..Len(d.ps) : ParamOk(d.v, d.ps[i], NumberType(d.v, d), feats)
  /\ Coherent(d.v, d.ps)
  /\ LayoutOk(d.v, d.ps, d, feats)
  /\ \A i \in 1..Len(d.need) :
       Provides(d.ps, feats, d.need[i], IF d.need[i] \in {"Serialize", "Deserialize"} THEN "serde" ELSE "rocket")
=============================================================================
