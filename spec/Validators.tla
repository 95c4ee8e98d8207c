----------------------------- MODULE Validators -----------------------------
(* The library: every family of validators, under one interface.            *)
EXTENDS HexId, Email, Url, Base, Numbers, Words, JsonText

(* what an input is, independent of the configuration; o: what the oracles  *)
(* (IDNA, URL, number, ... libraries) say about it                          *)
Facts(fam, k, s, o) ==
  CASE fam = "ip" -> NetFacts(s, ReadIp(s))
    [] fam = "ipv4" -> NetFacts(s, ReadIpv4(s))
    [] fam = "ipv6" -> NetFacts(s, ReadIpv6(s))
    [] fam = "host" -> NetFacts(s, ReadHost(s, o.idna))
    [] fam = "domain" -> DomainFacts(s, o.idna)
    [] fam = "email" -> EmailFacts(s, o.idna)
    [] fam \in {"url", "http_url", "http_ftp_url"} -> UrlFacts(s, o)
    [] fam \in {"base32", "base32_decoded"} -> BaseFacts(Base32, k, s)
    [] fam \in {"base64", "base64_decoded"} -> BaseFacts(Base64, k, s)
    [] fam \in {"base64_url", "base64_url_decoded"} -> BaseFacts(Base64Url, k, s)
    [] fam \in {"signed_integer", "unsigned_integer"} -> IntFacts(s)
    [] fam = "number" -> NumberFacts(s, o)
    [] fam = "phone" -> o
    [] fam = "json" -> JsonFacts(k, s, o)
    [] fam \in {"byte", "bit"} -> SizeFacts(k, s, o)
    [] fam \in {"text", "line"} -> TextFacts(s)
    [] fam = "boolean" -> BooleanFacts(k, s)
    [] fam = "length" -> LengthFacts(s)
    [] fam \in {"regex", "semver", "semver_req"} -> [o |-> o, s |-> s]
    [] OTHER -> s

(* the outcome a configuration c must have on an input with facts f *)
Expect(fam, k, c, f) ==
  CASE fam \in {"ip", "ipv4", "ipv6"} -> IpExpect(c, f)
    [] fam = "host" -> HostExpect(c, f)
    [] fam = "domain" -> DomainExpect(c, f)
    [] fam = "email" -> EmailExpect(c, f)
    [] fam = "url" -> UrlExpect(c, f)
    [] fam = "http_url" -> HttpUrlExpect(c, f, HttpSchemes, "https")
    [] fam = "http_ftp_url" -> HttpUrlExpect(c, f, HttpFtpSchemes, "protocol")
    [] fam \in {"base32", "base64", "base64_url"} -> BaseExpect(c, f, FALSE)
    [] fam \in {"base32_decoded", "base64_decoded", "base64_url_decoded"} -> BaseExpect(c, f, TRUE)
    [] fam \in {"signed_integer", "unsigned_integer"} -> IntExpect(c, k, f)
    [] fam = "number" -> NumberExpect(c, k, f)
    [] fam = "phone" -> PhoneExpect(c, f)
    [] fam = "json" -> JsonExpect(c, f)
    [] fam \in {"byte", "bit"} -> SizeExpect(c, f)
    [] fam = "text" -> TextExpect(c, f, f.text)
    [] fam = "line" -> TextExpect(c, f, f.line)
    [] fam = "boolean" -> BooleanExpect(f)
    [] fam = "length" -> LengthExpect(c, f)
    [] fam = "regex" -> RegexExpect(c, f)
    [] fam \in {"semver", "semver_req"} -> GrammarExpect(fam, f)
    [] fam = "mac_address" -> HexIdExpect(c, HexIdFacts(f, MacGroups, c.sc), MacGroups)
    [] fam = "uuid" -> HexIdExpect(c, HexIdFacts(f, UuidGroups, c.sc), UuidGroups)

(* three-valued options and their values: what allows, requires, forbids *)
Tri(fam) ==
  LET amd(o) == <<o, "Allow", "Must", "Disallow">> IN
  CASE fam \in {"ip", "ipv4", "ipv6"} -> {amd("local"), amd("port")}
    [] fam = "host" -> {amd("local"), amd("port"), amd("altl")}
    [] fam = "domain" -> {amd("ipv4"), amd("local"), amd("port"), amd("altl")}
    [] fam = "email" -> {amd("ip"), amd("local"), amd("altl")}
    [] fam \in {"mac_address", "uuid"} -> {<<"sep", "Allow", "Must", "Disallow">>, <<"case", "Any", "Upper", "Lower">>}
    [] fam \in {"http_url", "http_ftp_url"} -> {amd("local")}
    [] fam \in {"base32", "base64", "base64_url", "base32_decoded", "base64_decoded", "base64_url_decoded"} -> {amd("padding")}
    [] fam = "number" -> {amd("nan")}
    [] OTHER -> {}
(* options with the values Allow and Disallow only *)
TwoValued(fam) == IF fam = "email" THEN {"comment", "non_ascii"} ELSE {}
=============================================================================
