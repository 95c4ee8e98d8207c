------------------------------- MODULE Common -------------------------------
(* What every validator of the library has in common.  A validator is a     *)
(* configuration (a record of options); submitting an input to it yields an *)
(* outcome:                                                                 *)
(*   ok    whether the input is accepted                                    *)
(*   v     the value it denotes (a record, the abstract state)              *)
(*   errs  the errors which may be reported when it is rejected: every one  *)
(*         of them is true of the input, and none else is                   *)
(*   text  the canonical text of the value (NoText: the library offers none)*)
(*   ser   its serialized form: kind of content, and content                *)
(*   ex    further observations of the value                                *)
(*   back  whether the canonical text, or what JSON carries of it, denotes   *)
(*         the same value ("eq", "neq", "err")                              *)
(*   lossless  the same for a format which loses nothing                    *)
EXTENDS Text

NoText == <<-1>>
NoSer == [t |-> "", c |-> <<>>]
SerText(s) == [t |-> "s", c |-> s]
NoEx == [none |-> TRUE]
Reject(errs) == [ok |-> FALSE, v |-> NoEx, errs |-> errs, text |-> NoText, ser |-> NoSer, ex |-> NoEx, back |-> "eq", lossless |-> "eq"]
Accept(v) == [ok |-> TRUE, v |-> v, errs |-> {}, text |-> NoText, ser |-> NoSer, ex |-> NoEx, back |-> "eq", lossless |-> "eq"]

(* what an oracle answered for a text: o is a sequence of <<text, answer>> *)
Refused == <<-1>>
Ask(o, s) == LET i == SelectInSeq(o, LAMBDA p : p[1] = s) IN IF i = 0 THEN <<-2>> ELSE o[i][2]
=============================================================================
