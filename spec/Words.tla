-------------------------------- MODULE Words --------------------------------
(* Text and line, collections, truth values, patterns, versions.            *)
EXTENDS Common

(* ------------------------------------------------ text, line ---------- *)
(* c: unit ("char", "byte"), min, tmin, max; NoLimit where not configured   *)
NoLimit == -1
TextForbidden(c) == (c < 32 /\ c \notin {9, 10, 11, 13}) \/ c = 127
LineForbidden(c) == (c < 32 /\ c # 9) \/ c = 127
TextFacts(s) ==
  LET t == Trim(s)
  IN [s |-> s, text |-> ~Some(s, TextForbidden), line |-> ~Some(s, LineForbidden),
      char |-> Len(s), byte |-> ByteLen(s), tchar |-> Len(t), tbyte |-> ByteLen(t)]
TextExpect(c, f, clean) ==
  LET n == IF c.unit = "byte" THEN f.byte ELSE f.char
      t == IF c.unit = "byte" THEN f.tbyte ELSE f.tchar
      errs == (IF clean THEN {} ELSE {"Invalid"})
              \cup (IF (c.min # NoLimit /\ n < c.min) \/ (c.tmin # NoLimit /\ t < c.tmin) THEN {"TooShort"} ELSE {})
              \cup (IF c.max # NoLimit /\ n > c.max THEN {"TooLong"} ELSE {})
  IN IF errs = {} THEN [Accept([text |-> f.s]) EXCEPT !.ser = SerText(f.s)] ELSE Reject(errs)

(* ------------------------------------------------ collections --------- *)
(* the input is the sequence of elements put in; c.ty: what holds them;     *)
(* sets and maps hold equal elements (keys) once                            *)
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
LengthFacts(s) == [list |-> s, sorted |-> SortSeq(s, LAMBDA a, b : a < b), set |-> Sorted({s[i] : i \in 1..Len(s)})]
LengthExpect(c, f) ==
  LET held == CASE c.ty = "list" -> f.list [] c.ty = "heap" -> f.sorted [] OTHER -> f.set
      n == Len(held)
      errs == (IF c.min # NoLimit /\ n < c.min THEN {"TooSmall"} ELSE {}) \cup (IF c.max # NoLimit /\ n > c.max THEN {"TooLarge"} ELSE {})
  IN IF errs = {} THEN [Accept([held |-> held]) EXCEPT !.ser = [t |-> "same", c |-> <<>>], !.ex = [len |-> n, empty |-> n = 0]] ELSE Reject(errs)

(* ------------------------------------------------ truth values -------- *)
TrueWords == {C("true"), C("t"), C("yes"), C("y"), C("on"), C("1")}
FalseWords == {C("false"), C("f"), C("no"), C("n"), C("off"), C("0")}
BooleanFacts(k, s) ==
  LET w == Lower(s)
      num == LET d == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s IN IF AllDigits(d) THEN Normal(d) ELSE <<>>
  IN CASE k \in {"text", "char"} -> [yes |-> w \in TrueWords, no |-> w \in FalseWords]
       [] k = "bool" -> [yes |-> s = C("true"), no |-> s = C("false")]
       [] OTHER -> [yes |-> num = C("1") /\ ~StartsWith(s, 45), no |-> num = C("0")]
BooleanExpect(f) ==
  IF f.yes \/ f.no THEN [Accept([truth |-> f.yes]) EXCEPT !.ser = [t |-> "t", c |-> IF f.yes THEN C("true") ELSE C("false")]]
  ELSE Reject({"BooleanError"})

(* ------------------------------------------------ patterns ------------ *)
LOCAL DigitsAt(s, a, b) == \A i \in a..b : IsDigit(s[i])
MatchesPattern(p, s) ==
  CASE p = "hex" -> s # <<>> /\ Every(s, IsHex)
    [] p = "nonzero" -> s # <<>> /\ Every(s, LAMBDA c : c \in 49..57)
    [] p = "poker" -> (Len(s) = 1 /\ (s[1] \in 49..57 \/ s[1] \in {65, 74, 81, 75})) \/ s = C("10")
    [] p = "anya" -> Has(s, 97)
    [] p = "any" -> TRUE
    [] p = "empty" -> s = <<>>
    [] p = "yes" -> Lower(s) = C("yes")
    [] p = "one" -> Len(s) = 1 /\ s[1] # 10
    [] p = "head" -> StartsWith(s, 97)
    [] p = "tail" -> EndsWith(s, 97)
    [] p = "date" -> Len(s) = 10 /\ s[5] = 45 /\ s[8] = 45 /\ DigitsAt(s, 1, 4) /\ DigitsAt(s, 6, 7) /\ DigitsAt(s, 9, 10)
    [] p = "or" -> s \in {C("ab"), C("abc"), C("b")}
RegexExpect(c, f) ==
  IF MatchesPattern(c.p, f.s) THEN [Accept([text |-> f.s]) EXCEPT !.ser = SerText(f.s)] ELSE Reject({"RegexError"})

(* ------------------------------------------------ phone numbers ------- *)
(* o: for "none" and every country, what the phone number library reads of  *)
(* the text there: whether it is a number, of which country, whether valid  *)
PhoneExpect(c, o) ==
  LET good == SelectSeq(c.cs, LAMBDA x : o[x].ok /\ o[x].valid /\ o[x].id = x)
      parsed == IF c.cs = <<>> THEN o["none"].ok ELSE \E i \in 1..Len(c.cs) : o[c.cs[i]].ok
      nums == IF c.cs = <<>> THEN IF o["none"].ok /\ o["none"].valid THEN <<<<"", o["none"].num>>>> ELSE <<>>
              ELSE [i \in 1..Len(good) |-> <<good[i], o[good[i]].num>>]
  IN IF nums # <<>> THEN Accept([nums |-> nums])
     ELSE Reject(IF ~parsed THEN {"Failure"} ELSE IF Len(c.cs) > 1 /\ (\E i \in 1..Len(c.cs) : ~o[c.cs[i]].ok) THEN {"Invalid", "Failure"} ELSE {"Invalid"})

(* ------------------------------------------------ versions ------------ *)
U64Max == C("18446744073709551615")
VersionNumber(s) == AllDigits(s) /\ (Len(s) = 1 \/ s[1] # 48) /\ ~NatLess(U64Max, s)
IdentChar(c) == IsAlnum(c) \/ c = 45
PreIdent(s) == s # <<>> /\ Every(s, IdentChar) /\ (Every(s, IsDigit) => Len(s) = 1 \/ s[1] # 48)
BuildIdent(s) == s # <<>> /\ Every(s, IdentChar)
IsVersion(s) ==
  LET plus == IndexOf(s, 43)
      head == IF plus = 0 THEN s ELSE Upto(s, plus - 1)
      build == Split(From(s, plus + 1), 46)
      dash == IndexOf(head, 45)
      core == Split(IF dash = 0 THEN head ELSE Upto(head, dash - 1), 46)
      pre == Split(From(head, dash + 1), 46)
  IN /\ Len(core) = 3 /\ \A i \in 1..3 : VersionNumber(core[i])
     /\ dash # 0 => \A i \in 1..Len(pre) : PreIdent(pre[i])
     /\ plus # 0 => \A i \in 1..Len(build) : BuildIdent(build[i])
(* requirements: the oracle (the semver crate) says whether, and the normal form *)
GrammarExpect(fam, f) ==
  LET ok == IF fam = "semver" THEN IsVersion(f.s) ELSE f.o.ok
      t == IF fam = "semver" THEN f.s ELSE f.o.text
  IN IF ok THEN [Accept([text |-> t]) EXCEPT !.text = t, !.ser = SerText(t)] ELSE Reject({"SemverError"})
=============================================================================
