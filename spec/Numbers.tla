------------------------------- MODULE Numbers -------------------------------
(* Integers of every width and floating-point numbers, with ranges.         *)
EXTENDS Common

(* ------------------------------------------------ ranges -------------- *)
(* c.mode: "Unlimited", "Inside", "Outside"; c.min, c.max: bounds or NoBound*)
(* c.incl: whether the upper bound itself is in the range.  A range without *)
(* bounds restricts nothing.  less: the order of the numbers.               *)
NoBound == <<>>
RangeErrs(c, below, above) ==
  CASE c.mode = "Inside" -> (IF below THEN {"TooSmall"} ELSE {}) \cup (IF above THEN {"TooLarge"} ELSE {})
    [] c.mode = "Outside" -> IF ~below /\ ~above /\ (c.min # NoBound \/ c.max # NoBound) THEN {"Forbidden"} ELSE {}
    [] OTHER -> {}

(* ------------------------------------------------ integers ------------ *)
(* sign and digits; the text form of an integer *)
IntText_(s) == LET d == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s IN
  [ok |-> AllDigits(d), minus |-> StartsWith(s, 45),
   x |-> IF AllDigits(d) THEN LET n == Normal(d) IN [neg |-> StartsWith(s, 45) /\ n # <<48>>, d |-> n] ELSE [neg |-> FALSE, d |-> <<48>>]]
ReadInt(s) == IntText_(s).x
IntFacts(s) == IntText_(s)
(* what JSON holds as an integer *)
JsonInt(x) == IF x.neg THEN ~NatLess(C("9223372036854775808"), x.d) ELSE ~NatLess(C("18446744073709551615"), x.d)
IntExpect(c, k, f) ==
  LET small == IntLess(f.x, ReadInt(c.tmin))
      large == IntLess(ReadInt(c.tmax), f.x)
      malformed == k = "text" /\ (~f.ok \/ (c.unsigned /\ f.minus))
      below == c.min # NoBound /\ IntLess(f.x, ReadInt(c.min))
      above == c.max # NoBound /\ (IF c.incl THEN IntLess(ReadInt(c.max), f.x) ELSE IntLeq(ReadInt(c.max), f.x))
      width == (IF small THEN {"TooSmall"} ELSE {}) \cup (IF large THEN {"TooLarge"} ELSE {})
      errs == RangeErrs(c, below, above)
      t == IntText(f.x)
  IN IF malformed THEN Reject({"ParseIntError"})
     ELSE IF width # {} THEN Reject(width \cup (IF k = "text" THEN {"ParseIntError"} ELSE {}))
     ELSE IF errs # {} THEN Reject(errs)
     ELSE [Accept([n |-> t]) EXCEPT !.ser = [t |-> "n", c |-> t], !.back = IF JsonInt(f.x) THEN "eq" ELSE "err"]

(* ------------------------------------------------ sizes --------------- *)
(* c.read: how the unit is read ("any": b is a byte, "exact": b is a bit,   *)
(* "bit": a number of bits); o: what the byte-unit library reads, a whole   *)
(* quantity and its serialized form.  A plain integer is held up to 2^64-1. *)
SizeGrammar(s) ==
  LET t == Trim(s)
      j == SelectInSeq(t, LAMBDA c : ~IsDigit(c) /\ c # 46)
      num == Trim(IF j = 0 THEN t ELSE Upto(t, j - 1))
      dot == IndexOf(num, 46)
      unit == IF j = 0 THEN <<>> ELSE Lower(Trim(From(t, j)))
      base == IF unit = <<>> THEN <<>> ELSE IF unit[1] = 98 THEN unit ELSE Tail(unit)
      rest == IF base # <<>> /\ base[1] = 105 THEN Tail(base) ELSE base
  IN /\ num # <<>> /\ IsDigit(num[1])
     /\ (dot # 0 => AllDigits(Upto(num, dot - 1)) /\ AllDigits(From(num, dot + 1)))
     /\ rest \in {<<>>, C("b"), C("bit"), C("bits")}
     /\ unit # <<>> => Has(C("bkmgtpe"), unit[1])
SizeFacts(k, s, o) == [o |-> o, sane |-> k # "text" \/ SizeGrammar(s), k |-> k, x |-> IF AllDigits(s) \/ k # "text" THEN ReadInt(s).d ELSE <<>>]
SizeExpect(c, f) ==
  LET o == f.o[c.read]
      n == [neg |-> FALSE, d |-> o.n]
      below == c.min # NoBound /\ IntLess(n, ReadInt(c.min))
      above == c.max # NoBound /\ (IF c.incl THEN IntLess(ReadInt(c.max), n) ELSE IntLeq(ReadInt(c.max), n))
      errs == RangeErrs(c, below, above)
      fits == ~NatLess(C("18446744073709551615"), f.x)
      plain == f.k = "text" /\ f.x # <<>> /\ Len(f.x) < 28
  IN IF f.k # "text" /\ ~fits THEN Reject({"TooLarge"})
     ELSE IF ~f.sane \/ ~o.ok \/ (plain /\ (~fits \/ o.n # f.x)) THEN Reject({"ParseError"})
     ELSE IF errs # {} THEN Reject(errs)
     ELSE [Accept([n |-> o.n]) EXCEPT !.ser = o.ser]

(* ------------------------------------------------ floats -------------- *)
(* The grammar of a float; its value is the oracle's: nan, and key, whose   *)
(* lexicographic order is the order of the floats (four 16-bit parts).      *)
Exponent(s) == s = <<>> \/ (s[1] \in {69, 101} /\ LET e == Tail(s) IN AllDigits(IF e # <<>> /\ e[1] \in {43, 45} THEN Tail(e) ELSE e))
Mantissa(s) == LET j == IndexOf(s, 46) IN
               IF j = 0 THEN AllDigits(s)
               ELSE LET a == Upto(s, j - 1)  b == From(s, j + 1) IN Every(a, IsDigit) /\ Every(b, IsDigit) /\ (a # <<>> \/ b # <<>>)
FloatGrammar(s) ==
  LET u == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
      j == SelectInSeq(u, LAMBDA c : c \in {69, 101})
  IN \/ Lower(u) \in {C("inf"), C("infinity"), C("nan")}
     \/ IF j = 0 THEN Mantissa(u) ELSE Mantissa(Upto(u, j - 1)) /\ Exponent(From(u, j))
NumberFacts(s, o) == [ok |-> FloatGrammar(s), o |-> o]
NumberExpect(c, k, f) ==
  LET o == IF c.ty = "f32" THEN f.o.f32 ELSE f.o.f64
      below == ~o.nan /\ c.min # NoBound /\ LexLess(o.key, c.min)
      above == ~o.nan /\ c.max # NoBound /\ (IF c.incl THEN LexLess(c.max, o.key) ELSE ~LexLess(o.key, c.max))
      errs == (IF o.nan THEN {} ELSE RangeErrs(c, below, above))
              \cup (IF c.nan = "Must" /\ ~o.nan THEN {"NaNMust"} ELSE {})
              \cup (IF c.nan = "Disallow" /\ o.nan THEN {"NaNDisallow"} ELSE {})
  IN IF ~f.ok THEN Reject({"ParseFloatError"})
     ELSE IF errs # {} THEN Reject(errs)
     ELSE [Accept([nan |-> o.nan, bits |-> o.bits]) EXCEPT !.ser = o.ser, !.back = IF o.finite THEN "eq" ELSE "err"]
=============================================================================
