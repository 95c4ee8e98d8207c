--------------------------------- MODULE Ip ---------------------------------
(* IP addresses: textual forms, canonical text, and the local/non-local     *)
(* classification.  IPv4 = 4 octets, IPv6 = 8 groups of 16 bits.            *)
EXTENDS Text

NoIp == <<>>          \* "not an address"

(* ------------------------------------------------ IPv4 ----------------- *)
IsOctetText(s) == Len(s) \in 1..3 /\ Every(s, IsDigit) /\ (Len(s) = 1 \/ s[1] # 48) /\ SmallNat(s) <= 255
ParseIpv4(s) == IF Len(s) < 7 \/ Len(s) > 15 THEN NoIp
                ELSE LET p == Split(s, 46)
                     IN IF Len(p) = 4 /\ \A i \in 1..4 : IsOctetText(p[i])
                        THEN [i \in 1..4 |-> SmallNat(p[i])] ELSE NoIp
Ipv4Text(a) == Join([i \in 1..4 |-> NatDigits(a[i])], <<46>>)

IsLocalIpv4(a) ==
  \/ a[1] = 10                                          \* private
  \/ a[1] = 172 /\ a[2] >= 16 /\ a[2] <= 31
  \/ a[1] = 192 /\ a[2] = 168
  \/ a[1] = 127                                         \* loopback
  \/ a[1] = 169 /\ a[2] = 254                           \* link-local
  \/ a = <<255, 255, 255, 255>>                         \* broadcast
  \/ <<a[1], a[2], a[3]>> \in {<<192, 0, 2>>, <<198, 51, 100>>, <<203, 0, 113>>}  \* documentation
  \/ a = <<0, 0, 0, 0>>                                 \* unspecified

(* ------------------------------------------------ IPv6 ----------------- *)
HexNum(s) == FoldLeft(LAMBDA a, c : a * 16 + HexVal(c), 0, s)
IsGroupText(s) == Len(s) \in 1..4 /\ Every(s, IsHex)
BadGroups == <<-1>>
(* the 16-bit groups denoted by the pieces between colons *)
GroupsOf(pieces, allowV4) ==
  LET n == Len(pieces)
      v4 == IF n = 0 \/ ~allowV4 THEN NoIp ELSE ParseIpv4(pieces[n])
      m == IF v4 # NoIp THEN n - 1 ELSE n
  IN IF \A i \in 1..m : IsGroupText(pieces[i])
     THEN [i \in 1..m |-> HexNum(pieces[i])]
          \o (IF v4 # NoIp THEN <<v4[1] * 256 + v4[2], v4[3] * 256 + v4[4]>> ELSE <<>>)
     ELSE BadGroups
PiecesOf(s) == IF s = <<>> THEN <<>> ELSE Split(s, 58)
ElisionAt(s) == IF Len(s) < 2 THEN 0
                ELSE LET I == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
                     IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
ParseIpv6(s) ==
  IF Len(s) < 2 \/ Len(s) > 45 \/ ~Has(s, 58) THEN NoIp
  ELSE LET e == ElisionAt(s) IN
       IF e = 0
       THEN LET g == GroupsOf(Split(s, 58), TRUE) IN IF Len(g) = 8 THEN g ELSE NoIp
       ELSE LET l == GroupsOf(PiecesOf(Upto(s, e - 1)), FALSE)
                r == GroupsOf(PiecesOf(From(s, e + 2)), TRUE)
            IN IF l = BadGroups \/ r = BadGroups \/ Len(l) + Len(r) > 7 THEN NoIp
               ELSE l \o [i \in 1..(8 - Len(l) - Len(r)) |-> 0] \o r

RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN <<HexDigitLower(n)>> ELSE Append(HexText(n \div 16), HexDigitLower(n % 16))
IsMapped(a) == SubSeq(a, 1, 6) = <<0, 0, 0, 0, 0, 65535>>
IsCompatible(a) == SubSeq(a, 1, 6) = <<0, 0, 0, 0, 0, 0>>
EmbeddedV4(a) == <<a[7] \div 256, a[7] % 256, a[8] \div 256, a[8] % 256>>
(* length of the run of zero groups starting at i *)
ZeroRun(a, i) == LET J == {j \in i..8 : a[j] # 0} IN
                 (IF J = {} THEN 9 ELSE CHOOSE j \in J : \A k \in J : j <= k) - i
GroupText(a, i, j) == IF i > j THEN <<>> ELSE Join([k \in 1..(j - i + 1) |-> HexText(a[i + k - 1])], <<58>>)
Ipv6Text(a) ==
  IF IsMapped(a) THEN C("::ffff:") \o Ipv4Text(EmbeddedV4(a))
  ELSE LET runs == [i \in 1..8 |-> IF a[i] = 0 /\ (i = 1 \/ a[i - 1] # 0) THEN ZeroRun(a, i) ELSE 0]
           best == CHOOSE i \in 1..8 : /\ \A j \in 1..8 : runs[j] <= runs[i]
                                       /\ \A j \in 1..(i - 1) : runs[j] < runs[i]
       IN IF runs[best] < 2 THEN GroupText(a, 1, 8)
          ELSE GroupText(a, 1, best - 1) \o <<58, 58>> \o GroupText(a, best + runs[best], 8)

IsLocalIpv6(a) ==
  LET hi == a[1] \div 256 IN
  IF hi = 255 THEN (a[1] % 16) # 14                     \* multicast: local unless global scope
  ELSE \/ a = <<0, 0, 0, 0, 0, 0, 0, 0>>
       \/ a = <<0, 0, 0, 0, 0, 0, 0, 1>>
       \/ a[1] \div 64 = 1018                           \* fe80::/10
       \/ a[1] \div 64 = 1019                           \* fec0::/10
       \/ a[1] \div 512 = 126                           \* fc00::/7
       \/ a[1] = 8193 /\ a[2] = 3512                    \* 2001:db8::/32
       \/ (IsMapped(a) \/ IsCompatible(a)) /\ IsLocalIpv4(EmbeddedV4(a))

(* ------------------------------------------------ ports ---------------- *)
IsPortText(s) == AllDigits(s) /\ LET n == Normal(s) IN Len(n) <= 5 /\ (Len(n) < 5 \/ SmallNat(n) <= 65535)
PortOf(s) == SmallNat(Normal(s))
=============================================================================
