------------------------------- MODULE HexId --------------------------------
(* MAC addresses and UUIDs: groups of hexadecimal digits and a separator.   *)
(* Configuration: case in {"Any","Upper","Lower"}, sep in {"Must","Allow",  *)
(* "Disallow"}, sc the separator character.                                 *)
EXTENDS Common

MacGroups == <<2, 2, 2, 2, 2, 2>>
UuidGroups == <<8, 4, 4, 4, 12>>
Sum(g) == FoldLeft(LAMBDA a, n : a + n, 0, g)
CutPoints(g) == {Sum(SubSeq(g, 1, i)) : i \in 1..Len(g)}

HexIdFacts(s, groups, sc) ==
  LET pieces == Split(s, sc)
      digits == Concat(pieces)
      lens == [i \in 1..Len(pieces) |-> Len(pieces[i])]
      places == CutPoints(lens)              \* where the separators stand
  IN [wf |-> /\ \A i \in 1..Len(pieces) : pieces[i] # <<>>
             /\ Len(digits) = Sum(groups)
             /\ places \subseteq CutPoints(groups)
             /\ Every(digits, IsHex),
      split |-> Len(pieces) = Len(groups),
      unsplit |-> Len(pieces) = 1,
      upper |-> ~Some(digits, IsHexLower),
      lower |-> ~Some(digits, IsHexUpper),
      digits |-> Lower(digits),
      len |-> ByteLen(s)]

(* digits cut into groups *)
GroupsText(d, groups, sc) ==
  Join([i \in 1..Len(groups) |-> LET a == Sum(SubSeq(groups, 1, i - 1)) IN SubSeq(d, a + 1, a + groups[i])], <<sc>>)

HexIdExpect(c, f, groups) ==
  LET caseOk == CASE c.case = "Any" -> TRUE [] c.case = "Upper" -> f.upper [] c.case = "Lower" -> f.lower
      sepOk == CASE c.sep = "Allow" -> TRUE [] c.sep = "Must" -> f.split [] c.sep = "Disallow" -> f.unsplit
      want == IF c.sep = "Must" THEN Sum(groups) + Len(groups) - 1 ELSE Sum(groups)
      lenErr == IF f.len = want THEN {} ELSE IF c.sep = "Must" THEN {"SeparatorMust"} ELSE {"SeparatorDisallow"}
      ds == IF c.case = "Lower" THEN f.digits ELSE Upper(f.digits)
      canon == IF c.sep = "Disallow" THEN ds ELSE GroupsText(ds, groups, c.sc)
  IN IF f.wf /\ caseOk /\ sepOk
     THEN [Accept([digits |-> f.digits]) EXCEPT !.text = canon, !.ser = SerText(canon)]
     ELSE IF c.sep = "Allow" THEN Reject({"Invalid"})
     ELSE IF f.wf /\ caseOk
          THEN Reject(lenErr)                    \* only the separators are wrong
          ELSE Reject({"Invalid"} \cup lenErr)

HexTri == {"sep", "case"}
=============================================================================
