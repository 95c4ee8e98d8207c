--------------------------------- MODULE Net ---------------------------------
(* IP addresses, hosts and domains with optional ports.                     *)
EXTENDS Common, Ip, TLC

(* ------------------------------------------------ domain names -------- *)
(* The IDNA form of a name (Refused: not a name).  ASCII names are decided  *)
(* here; names with non-ASCII characters or punycode labels by the oracle.  *)
LdhLabel(l) == /\ Len(l) \in 1..63
               /\ Every(l, LAMBDA c : IsAlnum(c) \/ c = 45)
               /\ l[1] # 45 /\ l[Len(l)] # 45
Punycode(l) == Len(l) >= 4 /\ Lower(Upto(l, 4)) = C("xn--")
Unrooted(s) == IF EndsWith(s, 46) THEN DropLast(s) ELSE s
Idna(s, o) ==
  IF s = <<>> THEN Refused
  ELSE LET labels == Split(Unrooted(s), 46) IN
       IF AllAscii(s) /\ \A i \in 1..Len(labels) : ~Punycode(labels[i])
       THEN IF Len(Unrooted(s)) <= 253 /\ \A i \in 1..Len(labels) : LdhLabel(labels[i])
            THEN Lower(s) ELSE Refused
       ELSE Ask(o, s)
IsLocalDomain(s) == Lower(Unrooted(s)) = C("localhost")
TwoLabels(s) == Has(Unrooted(s), 46)

(* ------------------------------------------------ ports --------------- *)
NoPort == -1
PortPart(s, j) == From(s, j + 1)
WithPort(addr, port) == IF port = NoPort THEN addr ELSE addr \o <<58>> \o NatDigits(port)
PortErrs(c, f) == (IF c.port = "Must" /\ ~f.hasPort THEN {"PortMust"} ELSE {})
                  \cup (IF c.port = "Disallow" /\ f.hasPort THEN {"PortDisallow"} ELSE {})
LocalErrs(c, f) == (IF c.local = "Must" /\ ~f.local THEN {"LocalMust"} ELSE {})
                   \cup (IF c.local = "Disallow" /\ f.local THEN {"LocalDisallow"} ELSE {})

(* ------------------------------------------------ readings ------------ *)
(* A reading of a text as an address, perhaps with a port.                  *)
(* kind: "4", "6", "d" (domain), "x" (none); h: octets, groups or name      *)
NoReading == [kind |-> "x", h |-> <<>>, hasPort |-> FALSE, ptext |-> <<>>]
Bracketed(s) ==
  IF EndsWith(s, 93)
  THEN LET a == ParseIpv6(SubSeq(s, 2, Len(s) - 1))
       IN [kind |-> IF a = NoIp THEN "x" ELSE "6", h |-> a, hasPort |-> FALSE, ptext |-> <<>>]
  ELSE LET j == LastIndexOf(s, 58) IN
       IF j >= 2 /\ s[j - 1] = 93
       THEN LET a == ParseIpv6(SubSeq(s, 2, j - 2))
            IN [kind |-> IF a = NoIp THEN "x" ELSE "6", h |-> a, hasPort |-> TRUE, ptext |-> PortPart(s, j)]
       ELSE NoReading
ReadIpv6(s) ==
  IF s = <<>> THEN NoReading
  ELSE IF s[1] = 91 THEN Bracketed(s)
  ELSE LET a == ParseIpv6(s) IN [NoReading EXCEPT !.kind = IF a = NoIp THEN "x" ELSE "6", !.h = a]
ReadIpv4(s) ==
  LET j == LastIndexOf(s, 58)
      a == ParseIpv4(IF j = 0 THEN s ELSE Upto(s, j - 1))
  IN [kind |-> IF a = NoIp THEN "x" ELSE "4", h |-> a, hasPort |-> j # 0, ptext |-> IF j = 0 THEN <<>> ELSE PortPart(s, j)]
ReadIp(s) == LET r == ReadIpv6(s) IN IF r.kind = "6" \/ StartsWith(s, 91) THEN r ELSE ReadIpv4(s)

(* A name or IPv4 address before an optional port; root: may it end in the root dot *)
ReadNamed(s, o, root) ==
  LET j == LastIndexOf(s, 58)
      raw == IF j = 0 THEN s ELSE Upto(s, j - 1)
      mapped == IF AllAscii(raw) THEN raw ELSE Idna(raw, o)
      bad == mapped = Refused \/ (~root /\ EndsWith(mapped, 46))
      v4 == ParseIpv4(IF root THEN Unrooted(mapped) ELSE mapped)
      name == Idna(mapped, o)
      base == [kind |-> "x", h |-> <<>>, hasPort |-> j # 0, ptext |-> IF j = 0 THEN <<>> ELSE PortPart(s, j)]
  IN IF bad THEN base
     ELSE IF v4 # NoIp THEN [base EXCEPT !.kind = "4", !.h = v4]
     ELSE IF name # Refused THEN [base EXCEPT !.kind = "d", !.h = name]
     ELSE base
ReadHost(s, o) ==
  LET r == ReadIpv6(s) IN IF r.kind = "6" \/ StartsWith(s, 91) THEN r ELSE ReadNamed(s, o, FALSE)

(* what the options need to know about a reading *)
NetFacts(s, r) ==
  [kind |-> r.kind, h |-> r.h, hasPort |-> r.hasPort,
   portOk |-> ~r.hasPort \/ IsPortText(r.ptext),
   port |-> IF r.hasPort /\ IsPortText(r.ptext) THEN PortOf(r.ptext) ELSE NoPort,
   local |-> CASE r.kind = "4" -> IsLocalIpv4(r.h) [] r.kind = "6" -> IsLocalIpv6(r.h)
               [] r.kind = "d" -> IsLocalDomain(r.h) [] OTHER -> FALSE,
   two |-> IF r.kind = "d" THEN TwoLabels(r.h) ELSE TRUE,
   seemsPort |-> Has(s, 58) \/ StartsWith(s, 91),
   seemsNoPort |-> ~r.hasPort,
   seemsIp |-> StartsWith(s, 91)]

(* at least two labels: an IP address has them; localhost is exempt *)
TwoErrs(c, f) ==
  (IF c.altl = "Must" /\ f.kind = "d" /\ ~f.local /\ ~f.two THEN {"AtLeastTwoLabelsMust"} ELSE {})
  \cup (IF c.altl = "Disallow" /\ (f.kind \in {"4", "6"} \/ (f.kind = "d" /\ ~f.local /\ f.two))
        THEN {"AtLeastTwoLabelsDisallow"} ELSE {})

(* errors which are true of an input that is no address at all, or whose port is none *)
MalformedErrs(c, f) ==
  {"Invalid"}
  \cup (IF c.port = "Must" /\ f.seemsNoPort THEN {"PortMust"} ELSE {})
  \cup (IF c.port = "Disallow" /\ f.seemsPort THEN {"PortDisallow"} ELSE {})

(* ------------------------------------------------ ip, ipv4, ipv6 ------ *)
AddrText(kind, h) == CASE kind = "4" -> Ipv4Text(h)
                       [] kind = "6" -> <<91>> \o Ipv6Text(h) \o <<93>>
                       [] OTHER -> h
IpExpect(c, f) ==
  LET wf == f.kind # "x" /\ f.portOk
      errs == PortErrs(c, f) \cup (IF f.kind = "x" THEN {} ELSE LocalErrs(c, f))
      text == WithPort(AddrText(f.kind, f.h), f.port)
  IN IF wf /\ errs = {}
     THEN [Accept([ip |-> f.h, port |-> f.port]) EXCEPT !.text = text, !.ser = SerText(text)]
     ELSE Reject(IF wf THEN errs ELSE errs \cup MalformedErrs(c, f))

(* ------------------------------------------------ host ---------------- *)
ShowsLocal(c) == c.local = "Allow" /\ c.altl # "Allow"
HostExpect(c, f) ==
  LET wf == f.kind # "x" /\ f.portOk
      errs == PortErrs(c, f) \cup (IF f.kind = "x" THEN {} ELSE LocalErrs(c, f) \cup TwoErrs(c, f))
      text == WithPort(AddrText(f.kind, f.h), f.port)
      v == [t |-> f.kind, h |-> f.h, port |-> f.port]
  IN IF wf /\ errs = {}
     THEN [Accept(IF ShowsLocal(c) THEN v @@ [is_local |-> f.local] ELSE v) EXCEPT !.text = text, !.ser = SerText(text)]
     ELSE Reject(IF wf THEN errs
                 ELSE errs \cup MalformedErrs(c, f)
                      \cup (IF c.altl = "Disallow" /\ f.seemsIp THEN {"AtLeastTwoLabelsDisallow"} ELSE {}))

(* ------------------------------------------------ domain -------------- *)
DomainFacts(s, o) ==
  LET r == ReadNamed(s, o, TRUE)
      j == LastIndexOf(s, 58)
      raw == IF j = 0 THEN s ELSE Upto(s, j - 1)
  IN NetFacts(s, r) @@
     [name |-> IF r.kind = "4" THEN (IF AllAscii(raw) THEN raw ELSE Idna(raw, o)) ELSE r.h]
Ipv4Errs(c, f) == (IF c.ipv4 = "Must" /\ f.kind = "d" THEN {"IPv4Must"} ELSE {})
                  \cup (IF c.ipv4 = "Disallow" /\ f.kind = "4" THEN {"IPv4Disallow"} ELSE {})
DomainExpect(c, f) ==
  LET wf == f.kind # "x" /\ f.portOk
      errs == PortErrs(c, f) \cup (IF f.kind = "x" THEN {} ELSE LocalErrs(c, f) \cup TwoErrs(c, f) \cup Ipv4Errs(c, f))
      text == WithPort(Unrooted(f.name), f.port)
      v == [domain |-> f.name, port |-> f.port]
      w == IF ShowsLocal(c) THEN v @@ [is_local |-> f.local] ELSE v
      x == IF ShowsLocal(c) /\ c.ipv4 = "Allow" THEN w @@ [is_ipv4 |-> f.kind = "4"] ELSE w
  IN IF wf /\ errs = {}
     THEN [Accept(x) EXCEPT !.text = text, !.ser = SerText(text),
             !.ex = [fq |-> EndsWith(f.name, 46), nfq |-> Unrooted(f.name)],
             \* the URI authority has no root dot
             !.back = IF EndsWith(f.name, 46) THEN "neq" ELSE "eq"]
     ELSE Reject(IF wf THEN errs
                 ELSE errs \cup MalformedErrs(c, f)
                      \cup (IF c.ipv4 = "Must" /\ f.kind = "x" THEN {"IPv4Must"} ELSE {}))
=============================================================================
