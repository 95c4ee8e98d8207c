-------------------------------- MODULE Base ---------------------------------
(* Base32, Base64 and URL-safe Base64 texts, kept or decoded (RFC 4648).     *)
EXTENDS Common

Base32 == [g |-> 8, bits |-> 5, pads |-> {2, 4, 5, 7}, lens |-> {0, 2, 4, 5, 7}, alpha |-> 32]
Base64 == [g |-> 4, bits |-> 6, pads |-> {2, 3}, lens |-> {0, 2, 3}, alpha |-> 64]
Base64Url == [Base64 EXCEPT !.alpha = 65]
(* the value of a digit; -1: not in the alphabet *)
Digit(b, c) ==
  IF b.alpha = 32 THEN (IF IsUpper(c) THEN c - 65 ELSE IF c \in 50..55 THEN c - 24 ELSE -1)
  ELSE IF IsUpper(c) THEN c - 65 ELSE IF IsLower(c) THEN c - 71 ELSE IF IsDigit(c) THEN c + 4
  ELSE IF c = (IF b.alpha = 64 THEN 43 ELSE 45) THEN 62 ELSE IF c = (IF b.alpha = 64 THEN 47 ELSE 95) THEN 63 ELSE -1
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] OTHER -> 256

(* shift the digits in, bytes out; what is left over must be zero bits *)
Decoded(b, body) ==
  LET step(acc, c) == LET buf == acc.buf * Pow2(b.bits) + Digit(b, c)
                          n == acc.n + b.bits
                      IN IF n >= 8 THEN [out |-> Append(acc.out, buf \div Pow2(n - 8)), buf |-> buf % Pow2(n - 8), n |-> n - 8]
                         ELSE [acc EXCEPT !.buf = buf, !.n = n]
  IN FoldLeft(step, [out |-> <<>>, buf |-> 0, n |-> 0], body)

BaseFacts(b, k, s) ==
  LET n == IF k = "bytes" THEN Len(s) ELSE ByteLen(s)
      p == IndexOf(s, 61)                       \* the first padding character
      body == IF p = 0 THEN s ELSE Upto(s, p - 1)
      wf == /\ s # <<>>
            /\ Every(body, LAMBDA c : Digit(b, c) >= 0)
            /\ p # 0 => /\ Every(From(s, p), LAMBDA c : c = 61)
                        /\ n % b.g = 0 /\ p > n - b.g /\ (p - 1) % b.g \in b.pads
      d == IF wf THEN Decoded(b, body) ELSE [out |-> <<>>, buf |-> 0, n |-> 0]
  IN [wf |-> wf, text |-> s, padded |-> p # 0, full |-> n % b.g = 0,
      decodable |-> wf /\ Len(body) % b.g \in b.lens /\ d.buf = 0, bytes |-> d.out]

BaseExpect(c, f, decoded) ==
  LET errs == (IF c.padding = "Must" /\ ~f.full THEN {"PaddingMust"} ELSE {})
              \cup (IF c.padding = "Disallow" /\ f.padded THEN {"PaddingDisallow"} ELSE {})
              \cup (IF f.wf THEN {} ELSE {"Invalid"})
              \cup (IF decoded /\ f.wf /\ ~f.decodable THEN {"Decode"} ELSE {})
  IN IF errs # {} THEN Reject(errs)
     ELSE IF decoded
     THEN [Accept([bytes |-> f.bytes]) EXCEPT !.ser = [t |-> "b", c |-> f.bytes], !.ex = [len |-> Len(f.bytes), empty |-> FALSE]]
     ELSE [Accept([text |-> f.text]) EXCEPT !.ser = SerText(f.text)]
=============================================================================
