-------------------------------- MODULE Email --------------------------------
(* Mailboxes: (c1)local-part(c2)@(c3)domain-part(c4)                        *)
EXTENDS Net

NoComment == <<-1>>
Atext(c) == IsAlnum(c) \/ c \in {33, 35, 36, 37, 38, 39, 42, 43, 45, 47, 61, 63, 94, 95, 96, 123, 124, 125, 126}
Special(c) == c \in {34, 40, 41, 44, 58, 59, 60, 62, 64, 91, 93}   \* only escaped, inside quotes
PlainQuoted(c) == Atext(c) \/ c \in {46, 92, 32, 9} \/ ~IsAscii(c)

(* how many backslashes stand immediately before position j *)
BackRun(s, j) == LET k == SelectLastInSeq(Upto(s, j - 1), LAMBDA c : c # 92) IN (j - 1) - k
Escaped(s, j) == BackRun(s, j) % 2 = 1
(* dots an unquoted local part cannot have *)
OddDots(s) == \/ StartsWith(s, 46) \/ EndsWith(s, 46)
              \/ \E i \in 1..(Len(s) - 1) : s[i] = 46 /\ s[i + 1] = 46
NeedsQuotes(s) == OddDots(s) \/ Some(s, LAMBDA c : c \in {92, 32, 9})

DotAtomOk(s) == s # <<>> /\ Every(s, LAMBDA c : Atext(c) \/ c = 46 \/ ~IsAscii(c)) /\ ~OddDots(s)
QuotedOk(s) == s # <<>> /\ \A j \in 1..Len(s) : PlainQuoted(s[j]) \/ (Special(s[j]) /\ Escaped(s, j))

(* A comment at the front of s: its text, and what follows. *)
FrontComment(s) ==
  IF ~StartsWith(s, 40) THEN [ok |-> TRUE, c |-> NoComment, rest |-> s]
  ELSE LET j == IndexOf(s, 41) IN
       IF j = 0 THEN [ok |-> FALSE, c |-> NoComment, rest |-> s]
       ELSE [ok |-> TRUE, c |-> SubSeq(s, 2, j - 1), rest |-> From(s, j + 1)]

(* The local part at the front of s: its text, and what follows. *)
BadLocal == [ok |-> FALSE, lp |-> <<>>, need |-> FALSE, rest |-> <<>>]
LocalPart(s) ==
  IF StartsWith(s, 34)
  THEN LET J == {j \in 2..Len(s) : s[j] = 34 /\ ~Escaped(s, j)} IN
       IF J = {} THEN BadLocal
       ELSE LET q == CHOOSE j \in J : \A k \in J : j <= k
                t == SubSeq(s, 2, q - 1)
            IN [ok |-> QuotedOk(t), lp |-> t, need |-> NeedsQuotes(t), rest |-> From(s, q + 1)]
  ELSE LET q == SelectInSeq(s, LAMBDA c : c \in {64, 40}) IN
       IF q = 0 THEN BadLocal
       ELSE LET t == Upto(s, q - 1) IN [ok |-> DotAtomOk(t), lp |-> t, need |-> FALSE, rest |-> From(s, q)]

(* The domain at the front of s: raw is what is written, norm its normal form. *)
BadDomain == [kind |-> "x", h |-> <<>>, raw |-> 0, norm |-> 0, rest |-> <<>>]
DomainPart(s, o) ==
  IF StartsWith(s, 91)
  THEN LET j == IndexOf(s, 93)
           tagged == Len(s) >= 6 /\ SubSeq(s, 2, 6) = C("IPv6:")
       IN IF j = 0 THEN BadDomain
          ELSE IF tagged
          THEN LET a == ParseIpv6(SubSeq(s, 7, j - 1)) IN
               IF a = NoIp THEN BadDomain
               ELSE [kind |-> "6", h |-> a, raw |-> j - 7, norm |-> Len(Ipv6Text(a)), rest |-> From(s, j + 1)]
          ELSE LET a == ParseIpv4(SubSeq(s, 2, j - 1)) IN
               IF a = NoIp THEN BadDomain
               ELSE [kind |-> "4", h |-> a, raw |-> 0, norm |-> 0, rest |-> From(s, j + 1)]
  ELSE LET j == IndexOf(s, 40)
           d == IF j = 0 THEN s ELSE Upto(s, j - 1)
           a == IF d = <<>> \/ EndsWith(d, 46) THEN Refused ELSE Idna(d, o)
       IN IF a = Refused \/ EndsWith(a, 46) THEN BadDomain
          ELSE [kind |-> "d", h |-> a, raw |-> ByteLen(d), norm |-> Len(a), rest |-> IF j = 0 THEN <<>> ELSE From(s, j)]

EmailFacts(s, o) ==
  LET one == FrontComment(s)
      lp == IF one.ok THEN LocalPart(one.rest) ELSE BadLocal
      two == IF lp.ok THEN FrontComment(lp.rest) ELSE [ok |-> FALSE, c |-> NoComment, rest |-> <<>>]
      d == From(two.rest, 2)                                 \* the domain part with its comments
      localBytes == ByteLen(s) - ByteLen(d) - 1
      localOk == /\ one.ok /\ lp.ok /\ two.ok /\ StartsWith(two.rest, 64) /\ d # <<>>
                 /\ localBytes <= 64 /\ ByteLen(d) <= 255 /\ ByteLen(s) <= 320
      three == FrontComment(d)
      dp == IF localOk /\ three.ok /\ three.rest # <<>> THEN DomainPart(three.rest, o) ELSE BadDomain
      grows == dp.norm > dp.raw /\ ByteLen(d) + dp.norm - dp.raw > 255
      four == FrontComment(dp.rest)
      tailOk == dp.rest = <<>> \/ (StartsWith(dp.rest, 40) /\ four.ok /\ four.rest = <<>>)
      comments == <<one.c, two.c, three.c, IF dp.rest = <<>> THEN NoComment ELSE four.c>>
  IN [wf |-> localOk /\ dp.kind # "x" /\ ~grows /\ tailOk,
      lp |-> lp.lp, need |-> lp.need, nonAscii |-> ~AllAscii(lp.lp),
      kind |-> dp.kind, h |-> dp.h,
      local |-> CASE dp.kind = "4" -> IsLocalIpv4(dp.h) [] dp.kind = "6" -> IsLocalIpv6(dp.h)
                  [] dp.kind = "d" -> IsLocalDomain(dp.h) [] OTHER -> FALSE,
      two |-> IF dp.kind = "d" THEN TwoLabels(dp.h) ELSE TRUE,
      comments |-> comments,
      hasComment |-> \E i \in 1..4 : comments[i] # NoComment,
      seemsComment |-> Has(s, 40) \/ (dp.kind \in {"4", "6"} /\ dp.rest # <<>>),
      domainReached |-> localOk /\ three.ok /\ three.rest # <<>>,
      seemsIp |-> StartsWith(three.rest, 91)]

EmailExpect(c, f) ==
  LET wf == f.wf /\ ~(c.non_ascii = "Disallow" /\ f.nonAscii)
      known == f.domainReached /\ f.kind # "x"
      errs == (IF c.comment = "Disallow" /\ f.hasComment THEN {"CommentDisallow"} ELSE {})
              \cup (IF known /\ c.ip = "Must" /\ f.kind = "d" THEN {"IPMust"} ELSE {})
              \cup (IF known /\ c.ip = "Disallow" /\ f.kind # "d" THEN {"IPDisallow"} ELSE {})
              \cup (IF known THEN LocalErrs(c, f) \cup TwoErrs(c, f) ELSE {})
      seem == {"Invalid"}
              \cup (IF c.comment = "Disallow" /\ f.seemsComment THEN {"CommentDisallow"} ELSE {})
              \cup (IF f.domainReached /\ f.seemsIp /\ c.ip = "Disallow" THEN {"IPDisallow"} ELSE {})
              \cup (IF f.domainReached /\ f.seemsIp /\ c.altl = "Disallow" THEN {"AtLeastTwoLabelsDisallow"} ELSE {})
              \cup (IF f.domainReached /\ ~f.seemsIp /\ c.ip = "Must" THEN {"IPMust"} ELSE {})
      par(t) == IF t = NoComment THEN <<>> ELSE <<40>> \o t \o <<41>>
      quo == IF f.need THEN <<34>> ELSE <<>>
      dtext == CASE f.kind = "4" -> <<91>> \o Ipv4Text(f.h) \o <<93>>
                 [] f.kind = "6" -> C("[IPv6:") \o Ipv6Text(f.h) \o <<93>>
                 [] OTHER -> f.h
      text == par(f.comments[1]) \o quo \o f.lp \o quo \o par(f.comments[2]) \o <<64>>
              \o par(f.comments[3]) \o dtext \o par(f.comments[4])
      v == [lp |-> f.lp, need |-> f.need, t |-> f.kind, h |-> f.h]
      w == IF ShowsLocal(c) THEN v @@ [is_local |-> f.local] ELSE v
      x == IF c.comment = "Allow" THEN w @@ [c |-> f.comments] ELSE w
  IN IF wf /\ errs = {}
     THEN [Accept(x) EXCEPT !.text = text, !.ser = SerText(text)]
     ELSE Reject(IF wf THEN errs ELSE errs \cup seem)
=============================================================================
