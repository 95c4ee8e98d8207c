--------------------------------- MODULE Url ---------------------------------
(* URLs.  The WHATWG grammar is the oracle's (the url crate): for a text it *)
(* says o.ok, the scheme, the host (kind "4", "6", "d" or "n": none) and    *)
(* the normal form.  Which schemes, how they are recognised, and what the   *)
(* local option makes of the host is decided here.                          *)
EXTENDS Net

HasScheme(s, name) == LET n == Len(name) IN Len(s) > n /\ Lower(Upto(s, n)) = name /\ s[n + 1] = 58
HttpSchemes == {C("http"), C("https")}
HttpFtpSchemes == {C("http"), C("https"), C("ftp")}

UrlFacts(s, o) ==
  [ok |-> o.ok, scheme |-> o.scheme, text |-> o.text,
   written |-> LET W == {n \in HttpFtpSchemes : HasScheme(s, n)} IN IF W = {} THEN <<>> ELSE CHOOSE n \in W : TRUE,
   local |-> CASE o.kind = "4" -> IsLocalIpv4(o.h) [] o.kind = "6" -> IsLocalIpv6(o.h)
               [] o.kind = "d" -> IsLocalDomain(o.h) [] OTHER -> FALSE]

UrlExpect(c, f) ==
  IF f.ok THEN [Accept([url |-> f.text]) EXCEPT !.text = f.text, !.ser = SerText(f.text)] ELSE Reject({"UrlError"})

HttpUrlExpect(c, f, schemes, flag) ==
  LET named == f.written \in schemes
      errs == (IF f.ok THEN LocalErrs(c, f) ELSE {}) \cup (IF f.ok THEN {} ELSE {"ParseError"}) \cup (IF named THEN {} ELSE {"ProtocolError"})
      v == IF flag = "https" THEN [url |-> f.text, https |-> f.scheme = C("https")] ELSE [url |-> f.text, protocol |-> Upper(f.scheme)]
  IN IF named /\ f.ok /\ errs = {} THEN [Accept(v) EXCEPT !.text = f.text, !.ser = SerText(f.text)] ELSE Reject(errs)
=============================================================================
