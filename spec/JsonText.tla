------------------------------ MODULE JsonText ------------------------------
(* JSON documents and their texts (RFC 8259, as serde_json reads it: lone   *)
(* surrogates are errors, an integer which no 64-bit type holds is a float, *)
(* a float too large for a double is an error, a repeated name is the last  *)
(* one).  A document is <<"z">>, <<"t">>, <<"f">>, <<"n", text>>,           *)
(* <<"s", text>>, <<"a", docs>> or <<"o", <<name, doc>> pairs>>.            *)
(* nums: what the number library reads: <<literal, normal form>>.           *)
EXTENDS Common

JBad == [p |-> 0, d |-> <<"z">>]
JGot(p, d) == [p |-> p, d |-> d]
At(s, p) == IF p <= Len(s) THEN s[p] ELSE 0
JSpace(c) == c \in {32, 9, 10, 13}
RECURSIVE JSkip(_, _)
JSkip(s, p) == IF p <= Len(s) /\ JSpace(s[p]) THEN JSkip(s, p + 1) ELSE p

(* ------------------------------------------------ strings ------------- *)
Hex4(s, p) == IF p + 3 <= Len(s) /\ \A i \in p..(p + 3) : IsHex(s[i])
              THEN HexVal(s[p]) * 4096 + HexVal(s[p + 1]) * 256 + HexVal(s[p + 2]) * 16 + HexVal(s[p + 3]) ELSE -1
Escape(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1
(* from position p, after the opening quote; acc: what was read *)
RECURSIVE JString(_, _, _)
JString(s, p, acc) ==
  IF p > Len(s) \/ s[p] < 32 THEN [p |-> 0, t |-> <<>>]
  ELSE IF s[p] = 34 THEN [p |-> p + 1, t |-> acc]
  ELSE IF s[p] # 92 THEN JString(s, p + 1, Append(acc, s[p]))
  ELSE IF At(s, p + 1) = 117
  THEN LET h == Hex4(s, p + 2) IN
       IF h < 0 \/ (h >= 56320 /\ h <= 57343) THEN [p |-> 0, t |-> <<>>]
       ELSE IF h >= 55296 /\ h <= 56319
       THEN LET g == IF At(s, p + 6) = 92 /\ At(s, p + 7) = 117 THEN Hex4(s, p + 8) ELSE -1
            IN IF g >= 56320 /\ g <= 57343 THEN JString(s, p + 12, Append(acc, 65536 + (h - 55296) * 1024 + (g - 56320))) ELSE [p |-> 0, t |-> <<>>]
       ELSE JString(s, p + 6, Append(acc, h))
  ELSE LET e == Escape(At(s, p + 1)) IN IF e < 0 THEN [p |-> 0, t |-> <<>>] ELSE JString(s, p + 2, Append(acc, e))

(* ------------------------------------------------ numbers ------------- *)
RECURSIVE Digits(_, _)
Digits(s, p) == IF p <= Len(s) /\ IsDigit(s[p]) THEN Digits(s, p + 1) ELSE p
(* the end of the number which starts at p; 0: there is none *)
JNumberEnd(s, p) ==
  LET a == IF At(s, p) = 45 THEN p + 1 ELSE p
      b == IF At(s, a) = 48 THEN a + 1 ELSE Digits(s, a)
      c == IF At(s, b) = 46 THEN Digits(s, b + 1) ELSE b
      e == IF At(s, c) \in {69, 101} THEN IF At(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1 ELSE c
      f == IF e = c THEN c ELSE Digits(s, e)
  IN IF b = a \/ (c # b /\ c = b + 1) \/ (e # c /\ f = e) THEN 0 ELSE f
WholeNumber(t) == LET d == IF StartsWith(t, 45) THEN Tail(t) ELSE t
             IN AllDigits(d) /\ (IF StartsWith(t, 45) THEN d # <<48>> /\ ~NatLess(C("9223372036854775808"), d) ELSE ~NatLess(C("18446744073709551615"), d))
JNumber(t, nums) == IF WholeNumber(t) THEN t ELSE Ask(nums, t)

(* ------------------------------------------------ documents ----------- *)
Put(pairs, name, d) == LET i == SelectInSeq(pairs, LAMBDA x : x[1] = name)
                       IN IF i = 0 THEN Append(pairs, <<name, d>>) ELSE [pairs EXCEPT ![i] = <<name, d>>]
JWord(s, p, w, d) == IF p + Len(w) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(w) - 1) = w THEN JGot(p + Len(w), d) ELSE JBad
RECURSIVE JDoc(_, _, _), JItems(_, _, _, _), JPairs(_, _, _, _)
JDoc(s, q, nums) ==
  LET p == JSkip(s, q)  c == At(s, p) IN
  CASE c = 110 -> JWord(s, p, C("null"), <<"z">>)
    [] c = 116 -> JWord(s, p, C("true"), <<"t">>)
    [] c = 102 -> JWord(s, p, C("false"), <<"f">>)
    [] c = 34 -> LET r == JString(s, p + 1, <<>>) IN IF r.p = 0 THEN JBad ELSE JGot(r.p, <<"s", r.t>>)
    [] c = 45 \/ IsDigit(c) -> LET e == JNumberEnd(s, p)
                                  n == IF e = 0 THEN Refused ELSE JNumber(SubSeq(s, p, e - 1), nums)
                              IN IF n \in {Refused, <<-2>>} THEN JBad ELSE JGot(e, <<"n", n>>)
    [] c = 91 -> LET k == JSkip(s, p + 1) IN IF At(s, k) = 93 THEN JGot(k + 1, <<"a", <<>>>>) ELSE JItems(s, p + 1, <<>>, nums)
    [] c = 123 -> LET k == JSkip(s, p + 1) IN IF At(s, k) = 125 THEN JGot(k + 1, <<"o", <<>>>>) ELSE JPairs(s, p + 1, <<>>, nums)
    [] OTHER -> JBad
JItems(s, q, acc, nums) ==
  LET r == JDoc(s, q, nums) IN
  IF r.p = 0 THEN JBad
  ELSE LET k == JSkip(s, r.p)  all == Append(acc, r.d) IN
       CASE At(s, k) = 44 -> JItems(s, k + 1, all, nums)
         [] At(s, k) = 93 -> JGot(k + 1, <<"a", all>>)
         [] OTHER -> JBad
JPairs(s, q, acc, nums) ==
  LET a == JSkip(s, q)
      name == IF At(s, a) = 34 THEN JString(s, a + 1, <<>>) ELSE [p |-> 0, t |-> <<>>]
      colon == IF name.p = 0 THEN 0 ELSE JSkip(s, name.p)
      r == IF colon # 0 /\ At(s, colon) = 58 THEN JDoc(s, colon + 1, nums) ELSE JBad
  IN IF r.p = 0 THEN JBad
     ELSE LET k == JSkip(s, r.p)  all == Put(acc, name.t, r.d) IN
          CASE At(s, k) = 44 -> JPairs(s, k + 1, all, nums)
            [] At(s, k) = 125 -> JGot(k + 1, <<"o", all>>)
            [] OTHER -> JBad
ReadJson(s, nums) == LET r == JDoc(s, 1, nums) IN IF r.p # 0 /\ JSkip(s, r.p) = Len(s) + 1 THEN r ELSE JBad

(* ------------------------------------------------ emission ------------ *)
EscapeOut(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
                  [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c < 32 -> C("\\u00") \o <<48 + (c \div 16), HexDigitLower(c % 16)>> [] OTHER -> <<c>>
Quoted(t) == <<34>> \o Concat([i \in 1..Len(t) |-> EscapeOut(t[i])]) \o <<34>>
RECURSIVE Minified(_), Pretty(_, _)
Minified(d) ==
  CASE d[1] = "z" -> C("null") [] d[1] = "t" -> C("true") [] d[1] = "f" -> C("false") [] d[1] = "n" -> d[2] [] d[1] = "s" -> Quoted(d[2])
    [] d[1] = "a" -> <<91>> \o Join([i \in 1..Len(d[2]) |-> Minified(d[2][i])], <<44>>) \o <<93>>
    [] d[1] = "o" -> <<123>> \o Join([i \in 1..Len(d[2]) |-> Quoted(d[2][i][1]) \o <<58>> \o Minified(d[2][i][2])], <<44>>) \o <<125>>
Indent(n) == <<10>> \o [i \in 1..(2 * n) |-> 32]
Pretty(d, n) ==
  CASE d[1] = "a" /\ d[2] # <<>> -> <<91>> \o Indent(n + 1) \o Join([i \in 1..Len(d[2]) |-> Pretty(d[2][i], n + 1)], <<44>> \o Indent(n + 1)) \o Indent(n) \o <<93>>
    [] d[1] = "o" /\ d[2] # <<>> -> <<123>> \o Indent(n + 1) \o Join([i \in 1..Len(d[2]) |-> Quoted(d[2][i][1]) \o <<58, 32>> \o Pretty(d[2][i][2], n + 1)], <<44>> \o Indent(n + 1))
                                    \o Indent(n) \o <<125>>
    [] OTHER -> Minified(d)

(* ------------------------------------------------ the validator ------- *)
(* the document a field of this type holds; <<>>: none of its kind *)
SmallByte(d) == d[1] = "n" /\ AllDigits(d[2]) /\ ~NatLess(C("255"), d[2])
Held(ty, d, floats) ==
  CASE ty = "value" -> d
    [] ty = "object" /\ d[1] = "o" -> d
    [] ty = "array" /\ d[1] = "a" -> d
    [] ty = "string" /\ d[1] = "s" -> d
    [] ty = "number" /\ d[1] = "n" -> d
    [] ty = "bool" /\ d[1] \in {"t", "f"} -> d
    [] ty = "option" /\ d[1] \in {"t", "f", "z"} -> d
    [] ty = "u8" /\ SmallByte(d) -> d
    [] ty = "bytes" /\ d[1] = "a" /\ (\A i \in 1..Len(d[2]) : SmallByte(d[2][i])) -> d
    [] ty = "f64" /\ d[1] = "n" -> <<"n", Ask(floats, d[2])>>
    [] OTHER -> <<>>
(* k: "text" or "doc" for a text, else the primitive handed over *)
JsonFacts(k, s, o) ==
  LET r == CASE k \in {"text", "doc"} -> ReadJson(s, o.nums)
             [] k = "f64" -> JGot(1, <<"n", Ask(o.nums, s)>>)
             [] k = "bool" -> JGot(1, IF s = C("true") THEN <<"t">> ELSE <<"f">>)
             [] OTHER -> LET d == IF s[1] \in {43, 45} THEN Tail(s) ELSE s
                             t == IF s[1] = 45 /\ Normal(d) # <<48>> THEN <<45>> \o Normal(d) ELSE Normal(d)
                         IN IF WholeNumber(t) THEN JGot(1, <<"n", t>>) ELSE JBad
  IN [ok |-> r.p # 0, d |-> r.d, o |-> o, mini |-> IF r.p # 0 THEN Minified(r.d) ELSE <<>>]
JsonExpect(c, f) ==
  LET h == IF f.ok THEN Held(c.ty, f.d, f.o.floats) ELSE <<>>
      t == IF c.ty = "f64" THEN Minified(h) ELSE f.mini
  IN IF h = <<>> THEN Reject({"SerdeJsonError"})
     ELSE [Accept([doc |-> h]) EXCEPT !.text = t, !.ser = SerText(t), !.ex = [pretty |-> Pretty(h, 0), back |-> "eq"]]
=============================================================================
