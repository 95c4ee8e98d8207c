------------------------------- MODULE Inputs -------------------------------
(* How a user types an input: a template is a sequence of slots, a slot a   *)
(* sequence of alternative pieces of text.  Exact templates are enumerated  *)
(* completely, Loose ones are sampled and then mistyped a little.           *)
EXTENDS InputsMisc

LOCAL E == <<>>
LOCAL Rep(s, n) == Concat([i \in 1..n |-> s])
LOCAL Cs(strs) == [i \in 1..Len(strs) |-> C(strs[i])]
LOCAL Opt(strs) == <<E>> \o Cs(strs)

(* ------------------------------------------------ MAC, UUID ----------- *)
LOCAL Pair == Cs(<<"00", "ff", "FF", "a5", "B7", "3c", "9E", "12">>)
LOCAL BadPair == Cs(<<"0g", "1", "123", "", ":0", "fF", "G1", "@1", "`1", "/1">>)
LOCAL Sep == <<C(":"), C(":"), C("-"), E>>
LOCAL MacSmall == Cs(<<"a1", "B2">>)
LOCAL MacExact ==
  << <<Cs(<<"a1", "B2", "3", "0g">>), Sep, Cs(<<"00">>), Sep, Cs(<<"12", "fF">>), Sep, Cs(<<"34">>), Sep, Cs(<<"56">>), Sep, Cs(<<"78", "9", "9aB">>)>>,
     <<Cs(<<"">>), Cs(<<"a1", "">>), Opt(<<":">>), Cs(<<"b2", "">>), Opt(<<":">>), Cs(<<"C3", "">>), Opt(<<":">>), Cs(<<"d4", "">>), Opt(<<":">>),
       Cs(<<"e5", "">>), Opt(<<":">>), Cs(<<"f6", "", "7">>)>> >>
LOCAL MacLoose ==
  << <<Pair, Sep, Pair, Sep, Pair, Sep, Pair, Sep, Pair, Sep, Pair>>,
     <<Pair, Cs(<<":">>), Pair, Cs(<<":">>), Pair, Cs(<<":">>), Pair, Cs(<<":">>), Pair, Cs(<<":">>), Pair>>,
     <<Pair, Cs(<<"-">>), Pair, Cs(<<"-">>), Pair, Cs(<<"-">>), Pair, Cs(<<"-">>), Pair, Cs(<<"-">>), Pair>>,
     <<Pair, Pair, Pair, Pair, Pair, Pair>>,
     <<Pair, Sep, Pair, Sep, BadPair, Sep, Pair, Sep, BadPair, Sep, Pair>> >>
LOCAL HexAlphabet == C(":--:0aAfFgG9.") \o <<233, 8364, 65296>>

LOCAL W8 == Cs(<<"00000000", "ffffffff", "DEADBEEF", "0a1B2c3D", "12345678">>)
LOCAL W4 == Cs(<<"0000", "ffff", "A1B2", "c3d4", "9876">>)
LOCAL W12 == Cs(<<"000000000000", "ffffffffffff", "0123456789AB", "fedcba987654", "A0b1C2d3E4f5">>)
LOCAL BadW4 == Cs(<<"000", "00000", "00g0", "-000", "", "x">>)
LOCAL UuidExact ==
  << <<Cs(<<"0a1b2c3d", "0A1B2C3D", "0a1b2c3", "0a1b2c3de">>), Sep, Cs(<<"4e5f">>), Sep, Cs(<<"6071", "60g1">>), Sep, Cs(<<"8293">>), Sep, Cs(<<"a4b5c6d7e8f9", "00000000000", "A4B5C6D7E8F9">>)>> >>
LOCAL UuidLoose ==
  << <<W8, Sep, W4, Sep, W4, Sep, W4, Sep, W12>>,
     <<W8, Cs(<<"-">>), W4, Cs(<<"-">>), W4, Cs(<<"-">>), W4, Cs(<<"-">>), W12>>,
     <<W8, W4, W4, W4, W12>>,
     <<W8, Sep, BadW4, Sep, W4, Sep, BadW4, Sep, W12>> >>

(* ------------------------------------------------ addresses ----------- *)
LOCAL V4Edges == Cs(<<
  "0.0.0.0", "0.0.0.1", "8.8.8.8", "9.255.255.255", "10.0.0.0", "10.255.255.255", "11.0.0.0", "100.64.0.1", "126.255.255.255",
  "127.0.0.0", "127.255.255.255", "128.0.0.0", "169.253.255.255", "169.254.0.0", "169.254.255.255", "169.255.0.0",
  "172.15.255.255", "172.16.0.0", "172.31.255.255", "172.32.0.0", "192.0.1.255", "192.0.2.0", "192.0.2.255", "192.0.3.0",
  "192.167.255.255", "192.168.0.0", "192.168.255.255", "192.169.0.0", "198.18.0.1", "198.51.99.255", "198.51.100.0", "198.51.100.255",
  "198.51.101.0", "203.0.112.255", "203.0.113.0", "203.0.113.255", "203.0.114.0", "224.0.0.1", "239.255.255.255", "240.0.0.1",
  "255.255.255.254", "255.255.255.255", "1.2.3", "1.2.3.4.5", "1.2.3.256", "01.2.3.4", "1.2.3.04", "1..2.3", "1.2.3.", ".1.2.3", "1.2.3.4.", "0x1.2.3.4", "1.2.3.-4" >>)
LOCAL V6Edges == Cs(<<
  "::", "::1", "::2", "0:0:0:0:0:0:0:1", "1::", "fe7f:ffff::1", "fe80::", "fe80::1", "FEBF::1", "febf:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "fec0::1", "feff::", "ff00::",
  "ff01::1", "ff02::1", "ff05::2", "ff08::", "ff0e::1", "ff1e::1", "ff0f::1", "fb00::", "fbff:ffff::", "fc00::", "fd12:3456:789a::1", "fdff::", "fe00::",
  "2001:db7:ffff::", "2001:db8::", "2001:db8:ffff::", "2001:db9::", "2001:0db8::8:800:200C:417A", "::ffff:10.0.0.1", "::ffff:8.8.8.8", "::ffff:127.0.0.1", "::FFFF:0a00:1",
  "::127.0.0.1", "::8.8.8.8", "::fffe:10.0.0.1", "::1:0:0", "64:ff9b::10.0.0.1", "2001:4860:4860::8888", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:0:0:2:0:0:0:3", "1:0:0:2:2:0:0:3",
  "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "::1.2.3.4:5", "1::2::3", ":::", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::1%1", "12345::", "g::", ":1", "1:", "[::1]", "0:0:1::0", "1:2:3:4:5:6:7:8::" >>)
LOCAL PortEdges == Cs(<< "", ":0", ":80", ":65535", ":65536", ":", ":+80", ":00080", ":8a", ":-1", ": 80", ":99999999999999999999", ":80:81", "]:80", "]" >>)
LOCAL Bracket == Cs(<< "", "[" >>)
LOCAL CloseB == Cs(<< "", "]" >>)
LOCAL IpExact == << <<V4Edges, PortEdges>>, <<V6Edges, Cs(<<"", ":80", "]:80">>)>>, <<Cs(<<"[">>), V6Edges, CloseB, PortEdges>>,
                    <<Cs(<<"[">>), Cs(<<"1.2.3.4", "">>), CloseB, PortEdges>> >>
LOCAL Octet == Cs(<< "0", "1", "10", "99", "127", "168", "169", "172", "192", "254", "255", "256", "300", "00", "31", "16", "2", "8" >>)
LOCAL Dot == Cs(<<".", ".", ".", ".", ".", ".", ".", "..", "">>)
LOCAL Group == Cs(<< "0", "1", "ffff", "FE80", "fc00", "2001", "db8", "a0", "00", "0000", "10", "00001", "", "g" >>)
LOCAL Colon == Cs(<< ":", ":", ":", ":", "::" >>)
LOCAL ColonGap == Cs(<< ":", "::" >>)
LOCAL PortLoose == Cs(<< "", "", ":0", ":1", ":443", ":8080", ":65535", ":65536", ":70000", ":000000000080", ":", ":a", ":+1" >>)
LOCAL V4Loose == <<Octet, Dot, Octet, Dot, Octet, Dot, Octet, PortLoose>>
LOCAL IpLoose ==
  << V4Loose,
     <<Bracket, Group, Colon, Group, Colon, Group, Colon, Group, Colon, Group, Colon, Group, Colon, Group, Colon, Group, CloseB, PortLoose>>,
     <<Cs(<<"[">>), Cs(<<"", "1", "fe80">>), Cs(<<"::">>), Group, Cs(<<":">>), Group, Cs(<<"]">>), PortLoose>>,
     <<Bracket, Cs(<<"::", "::ffff:", "0::", "1:2:3:4:5:6:", "64::">>), Octet, Cs(<<".">>), Octet, Cs(<<".">>), Octet, Cs(<<".">>), Octet, CloseB, PortLoose>>,
     <<V4Edges, PortLoose>>, <<Cs(<<"[">>), V6Edges, Cs(<<"]">>), PortLoose>>, <<V6Edges>> >>
LOCAL IpAlphabet == C(":::...[]0123456789abcfFg%/+- ") \o <<233, 65297, 12290>>

(* ------------------------------------------------ names --------------- *)
LOCAL L63 == Rep(C("a"), 63)
LOCAL Uni == << <<20013, 25991>>, <<102, 97, 223>>, <<233>>, <<65297>>, <<64256>>, <<65345, 66>>, <<1575>>, <<8203>>, <<173>>, <<769>>, <<8490>> >>
LOCAL Label == Cs(<< "a", "com", "example", "localhost", "LOCALHOST", "Example", "x-y", "a1", "9", "xn--fiq228c", "XN--fiq228c", "xn--a", "xn--", "a--b", "ab--c", "-a", "a-", "a_b", "a b", "", "%41" >>)
             \o Uni \o <<L63, Append(L63, 97)>>
LOCAL DotForms == << C("."), C("."), C("."), <<12290>>, <<65294>>, C("..") >>
LOCAL Root == << E, E, E, C("."), <<12290>>, C("..") >>
LOCAL NameEdges ==
  Cs(<< "localhost", "LocalHost", "localhost.", "LOCALHOST.", "localhost.localdomain", "a.localhost", "notlocalhost", "localhosts", "example", "example.com", "EXAMPLE.Com", "example.com.", "example.", "a.b.c",
        "xn--fiq228c.com", "xn--a.com", "a-.com", "-a.com", "ab--cd.com", "a..b", ".a", ".", "", "1.2.3.4", "1.2.3.4.", "127.0.0.1", "127.0.0.1.", "999.1.1.1", "1.2.3", "a_b.com", "::1", "[::1]", "[fe80::1", "a b", "http://a" >>)
  \o << <<20013, 25991>> \o C(".com"), C("Fa") \o <<223>> \o C(".de"), C("127") \o <<12290>> \o C("0.0.1"), <<65297>> \o C("27.0.0.1"), C("example") \o <<12290>> \o C("com"), C("example.com") \o <<12290>>,
        <<65356>> \o C("ocalhost"), C("localhost") \o <<65294>>, C("localho") \o <<383>> \o C("t"),
        L63 \o C(".com"), Append(L63, 97) \o C(".com"),
        L63 \o C(".") \o L63 \o C(".") \o L63 \o C(".") \o Rep(C("b"), 61), L63 \o C(".") \o L63 \o C(".") \o L63 \o C(".") \o Rep(C("b"), 62),
        L63 \o C(".") \o L63 \o C(".") \o L63 \o C(".") \o Rep(C("b"), 61) \o C("."), Rep(C("a."), 126) \o C("a"), Rep(C("a."), 127) \o C("a") >>
LOCAL NamePorts == Cs(<< "", ":0", ":80", ":65535", ":65536", ":", ":+80", ":080", ":8a", ":80:81", ":99999999999999999999" >>)
LOCAL NameExact == << <<NameEdges, NamePorts>> >>
LOCAL NameLoose ==
  << <<Label, DotForms, Label, Root, PortLoose>>, <<Label, Root, PortLoose>>, <<Label, DotForms, Label, DotForms, Label, Root, PortLoose>>,
     <<NameEdges, PortLoose>>, <<Cs(<<"example.com", "localhost", "a">>), Root, PortLoose>>,
     <<Octet, DotForms, Octet, DotForms, Octet, DotForms, Octet, Root, PortLoose>> >>
LOCAL NameAlphabet == C("..::-_aZ0[]/ @") \o <<233, 20013, 12290, 65294, 65297, 128512>>
LOCAL HostExact == NameExact \o << <<V4Edges, Cs(<<"", ":80", ":">>)>>, <<V6Edges, Cs(<<"", "]:80">>)>>, <<Cs(<<"[">>), V6Edges, CloseB, Cs(<<"", ":80", ":65536", ":">>)>> >>
LOCAL DomainExact == NameExact \o << <<V4Edges, Cs(<<"", ".", ":80", ".:80">>)>>, <<Cs(<<"::1", "[::1]", "fe80::1">>), Cs(<<"", ":80">>)>> >>

(* ------------------------------------------------ e-mail -------------- *)
LOCAL Comment == Cs(<< "", "", "", "", "()", "(c)", "(a b@c)", "((", "(x", "(", ")", "(\"q\")", "(\\)" >>) \o << C("(") \o <<233>> \o C(")") >>
LOCAL LocalEdges ==
  Cs(<< "john", "a", "a.b", ".a", "a.", "a..b", "john.doe+tag", "!#$%&'*+-/=?^_`{|}~", "a b", "a,b", "a\\b", "", "\"\"", "\"a\"", "\"a.b\"", "\".a\"", "\"a.\"", "\"a..b\"", "\"a b\"", "\" \"", "\"\\ \"", "\"a\\\"b\"",
        "\"a@b\"", "\"a\\@b\"", "\"\\\\\"", "\"\\\"", "\"a\\\\\\\"b\"", "\"a\\\\\"b\"", "\"\\.\"", "\"\\(\\)\\,\\:\\;\\<\\>\\[\\]\"", "\"a\\(b\"", "\"a(b\"", "\"\\ (\"", "\"a\"b", "a\"b\"", "\"a", "a\"", "\"\\a(\"", "\"a\\b\"", "\".\"", "\"..\"" >>)
  \o << <<233>>, C("a") \o <<20013>>, C("\"") \o <<233>> \o C("\""), C("\"\\") \o <<233>> \o C("(\""), C("\"a") \o <<9>> \o C("b\""), C("a") \o <<9>>, C("\"") \o <<10>> \o C("\""), C("\"") \o <<127>> \o C("\""), <<31>>,
        C("a.") \o <<233>>, C("a.") \o <<233>> \o C("."), C("\"a.") \o <<233>> \o C(".\""), <<133>> >>
LOCAL MailDomains ==
  Cs(<< "b", "example.com", "EXAMPLE.com", "localhost", "LOCALHOST", "example.com.", "[1.2.3.4]", "[127.0.0.1]", "[IPv6:::1]", "[IPv6:fe80::1]", "[IPv6:2001:4860::8888]", "[ipv6:::1]", "[::1]", "[IPv6:1.2.3.4]", "[1.2.3]", "[IPv6:", "[", "[]", "[1.2.3.4",
        "[IPv6:2001:0DB8:0:0::1]", "1.2.3.4", "a..b", "-a.b", "a_b", "", "a b", "xn--fiq228c.com", "xn--a", "a@b", "[IPv6:::ffff:1.2.3.4]", "[1.2.3.4]]" >>)
  \o << <<20013, 25991>> \o C(".com"), <<65356>> \o C("ocalhost"), C("a") \o <<12290>> \o C("b"), C("a") \o <<12290>>, <<65297>> \o C(".2.3.4") >>
LOCAL CommentSmall == Cs(<< "", "(c)", "(" >>)
LOCAL SizedLocal == [i \in 1..7 |-> Rep(C("a"), 59 + i)]
LOCAL EmailExact ==
  << <<LocalEdges, Cs(<<"", "(c)">>), Cs(<<"@">>), Cs(<<"", "(d)">>), Cs(<<"b.c">>), Cs(<<"", "(e)">>)>>,
     <<Cs(<<"a">>), Cs(<<"@">>), Cs(<<"", "(d)", "()", "(d)(e)">>), MailDomains, Cs(<<"", "(e)", "()", "(", "(e", "(e)f", "(e)(f)", "x">>)>>,
     <<CommentSmall, Cs(<<"a", "\"b c\"">>), CommentSmall, Cs(<<"@", "">>), CommentSmall, Cs(<<"b.c", "[1.2.3.4]">>), CommentSmall>>,
     <<Cs(<<"()", "(())", "(c)x">>), Cs(<<"a", "">>), Cs(<<"(c)(d)", "(c)x", "">>), Cs(<<"@b.c">>)>>,
     \* about 64 bytes before the at sign
     <<Cs(<<"", "\"", "(c)", "(c)\"">>), SizedLocal, Cs(<<"", "\"", ".", " \"", "\\\"\"", "\\a\"", "\\ \"">>), Cs(<<"", "()", "(c)", "(">>), Cs(<<"@b.c", "@", "">>)>>,
     <<Cs(<<"(">>), SizedLocal, Cs(<<")a", ")\"a\"", ")">>), Cs(<<"", "()">>), Cs(<<"@b.c">>)>>,
     <<Cs(<<"a(", "\"a\"(">>), SizedLocal, Cs(<<")@b.c", ")", ")@">>)>>,
     << << Rep(C("a"), 56), Rep(C("a"), 59), C("\"") \o Rep(C("a"), 58) >>, << <<233>>, <<20013>>, <<128512>> >>, <<E, <<233>>, <<20013>>, C("a"), C("aa"), C("aaaa")>>, Cs(<<"", "\"">>), Cs(<<"@b.c">>)>>,
     \* about 255 bytes after it, about 320 in all
     << << C("a"), Rep(C("a"), 64), Rep(C("a"), 63) >>, Cs(<<"@(">>), [i \in 1..8 |-> Rep(C("c"), 244 + i)], Cs(<<")b.c", ")B.c(", ")b.c()", ")[1.2.3.4]", ")">>)>>,
     << << C("a"), Rep(C("a"), 64) >>, Cs(<<"@">>), << L63 \o C(".") \o L63 \o C(".") \o L63 \o C("."), L63 \o C("."), Rep(C("(c"), 1) \o L63 \o L63 \o L63 \o C("c)aaaaa.") >>,
        << Rep(C("b"), 60), Rep(C("b"), 61), Rep(C("b"), 62), Rep(C("b"), 57) \o C("(c)"), Rep(C("b"), 50) \o <<233>>, <<20013>> \o Rep(C("b"), 57) >> >>,
     << Cs(<<"a@(">>), [i \in 1..6 |-> Rep(C("c"), 237 + i)], Cs(<<")">>), << <<20013>> , <<20013, 25991>> \o C(".c"), <<233>>, C("[IPv6:0:0:0:0:0:0:0:1]"), C("[IPv6:1:2:3:4::6:7:8]") >> >> >>
LOCAL LocalPiece == Cs(<< "a", "B", "0", ".", ".", "+", "\\", "\\\\", "\\\"", "\\ ", "\\(", " ", "(", "@", "ab", "-", "!", "" >>) \o << <<233>>, <<9>> >>
LOCAL EmailLoose ==
  << <<Comment, LocalEdges, Comment, Cs(<<"@">>), Comment, MailDomains, Comment>>,
     <<LocalEdges, Cs(<<"@">>), MailDomains>>,
     <<Cs(<<"\"">>), LocalPiece, LocalPiece, LocalPiece, LocalPiece, Cs(<<"\"">>), Cs(<<"@b.c", "(c)@[1.2.3.4]">>)>>,
     <<LocalPiece, LocalPiece, LocalPiece, LocalPiece, Cs(<<"@b.c", "@(x)b.c">>)>>,
     <<Cs(<<"a@">>), Label, DotForms, Label, Root, Comment>>,
     <<Cs(<<"a@[", "a@[IPv6:", "a@(c)[IPv6:">>), V6Edges, Cs(<<"]", "](d)", "]x", "">>)>>,
     <<Cs(<<"a@[", "a@[IPv6:">>), V4Edges, Cs(<<"]", "](d)">>)>> >>
LOCAL EmailAlphabet == C("@\"\\().. ,:[]aZ") \o <<9, 10, 127, 233, 20013>>

(* ------------------------------------------------ all ----------------- *)
Exact(fam) ==
  CASE fam \in MiscFams -> MiscExact(fam)
    [] fam = "mac_address" -> MacExact
    [] fam = "uuid" -> UuidExact
    [] fam \in {"ip", "ipv4", "ipv6"} -> IpExact
    [] fam = "host" -> HostExact
    [] fam = "domain" -> DomainExact
    [] fam = "email" -> EmailExact
    [] OTHER -> <<>>
Loose(fam) ==
  CASE fam \in MiscFams -> MiscLoose(fam)
    [] fam = "mac_address" -> MacLoose
    [] fam = "uuid" -> UuidLoose
    [] fam \in {"ip", "ipv4", "ipv6"} -> IpLoose
    [] fam = "host" -> NameLoose \o IpLoose
    [] fam = "domain" -> NameLoose \o <<V4Loose>>
    [] fam = "email" -> EmailLoose
    [] OTHER -> <<>>
Alphabet(fam) ==
  CASE fam \in MiscFams -> MiscAlphabet(fam)
    [] fam \in {"mac_address", "uuid"} -> HexAlphabet
    [] fam \in {"ip", "ipv4", "ipv6"} -> IpAlphabet
    [] fam \in {"host", "domain"} -> NameAlphabet
    [] fam = "email" -> EmailAlphabet
    [] OTHER -> C("a0 .:-@") \o <<233>>
=============================================================================
