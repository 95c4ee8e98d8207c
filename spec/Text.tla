-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of Unicode code points.  Everything the validators   *)
(* read or write is such a text; byte lengths are lengths of its UTF-8 form.*)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

(* ------------------------------------------------ literals ------------- *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch]
C(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]   \* "abc" as a text

(* ------------------------------------------------ characters ----------- *)
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)
IsHexLower(c) == c >= 97 /\ c <= 102
IsHexUpper(c) == c >= 65 /\ c <= 70
IsHex(c) == IsDigit(c) \/ IsHexLower(c) \/ IsHexUpper(c)
IsAscii(c) == c < 128
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
UpperC(c) == IF IsLower(c) THEN c - 32 ELSE c
HexDigitLower(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexDigitUpper(n) == IF n < 10 THEN 48 + n ELSE 55 + n
(* Unicode White_Space *)
IsSpace(c) == \/ c >= 9 /\ c <= 13
              \/ c \in {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
              \/ c >= 8192 /\ c <= 8202

(* ------------------------------------------------ texts ---------------- *)
Every(s, P(_)) == SelectInSeq(s, LAMBDA x : ~P(x)) = 0
Some(s, P(_)) == SelectInSeq(s, P) # 0
IndexOf(s, c) == SelectInSeq(s, LAMBDA x : x = c)        \* 0: absent
LastIndexOf(s, c) == SelectLastInSeq(s, LAMBDA x : x = c)
Has(s, c) == IndexOf(s, c) # 0
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]
Upper(s) == [i \in 1..Len(s) |-> UpperC(s[i])]
From(s, a) == SubSeq(s, a, Len(s))
Upto(s, b) == SubSeq(s, 1, b)
AllAscii(s) == Every(s, IsAscii)
EndsWith(s, c) == s # <<>> /\ s[Len(s)] = c
StartsWith(s, c) == s # <<>> /\ s[1] = c
DropLast(s) == SubSeq(s, 1, Len(s) - 1)
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
ByteLen(s) == IF AllAscii(s) THEN Len(s) ELSE FoldLeft(LAMBDA a, c : a + Utf8Len(c), 0, s)
Count(s, c) == FoldLeft(LAMBDA a, x : IF x = c THEN a + 1 ELSE a, 0, s)
TrimStart(s) == LET i == SelectInSeq(s, LAMBDA x : ~IsSpace(x)) IN IF i = 0 THEN <<>> ELSE From(s, i)
TrimEnd(s) == Upto(s, SelectLastInSeq(s, LAMBDA x : ~IsSpace(x)))
Trim(s) == TrimEnd(TrimStart(s))
(* pieces of s between separators c *)
Split(s, c) == LET step(acc, x) == IF x = c THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                                   ELSE [acc EXCEPT !.cur = Append(@, x)]
                   r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>], s)
               IN Append(r.done, r.cur)
Join(seqs, sep) == IF seqs = <<>> THEN <<>>
                   ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, seqs[1], Tail(seqs))
Concat(seqs) == FoldLeft(LAMBDA a, x : a \o x, <<>>, seqs)

(* ------------------------------------------------ decimal numbers ------ *)
RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatDigits(n \div 10), 48 + (n % 10))
RECURSIVE SmallNat(_)   \* value of a digit text known to be small
SmallNat(s) == IF s = <<>> THEN 0 ELSE SmallNat(DropLast(s)) * 10 + (s[Len(s)] - 48)
AllDigits(s) == s # <<>> /\ Every(s, IsDigit)
(* drop leading zeros, keeping one digit *)
Normal(s) == LET i == SelectInSeq(s, LAMBDA x : x # 48) IN IF i = 0 THEN <<48>> ELSE From(s, i)
(* order of two digit texts without leading zeros *)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
NatLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLess(a, b)

(* Integers of any size: [neg |-> BOOLEAN, d |-> digits], zero is not negative. *)
IntLess(x, y) == IF x.neg # y.neg THEN x.neg
                 ELSE IF x.neg THEN NatLess(y.d, x.d) ELSE NatLess(x.d, y.d)
IntLeq(x, y) == ~IntLess(y, x)
IntText(x) == IF x.neg THEN <<45>> \o x.d ELSE x.d
=============================================================================
