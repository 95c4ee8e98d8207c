----------------------------- MODULE InputsMisc ------------------------------
(* Inputs of the validators which are no addresses.                         *)
EXTENDS Text, TLC

LOCAL E == <<>>
LOCAL Rep(s, n) == Concat([i \in 1..n |-> s])
LOCAL Cs(strs) == [i \in 1..Len(strs) |-> C(strs[i])]

(* ------------------------------------------------ URLs ---------------- *)
LOCAL Scheme == Cs(<<"http://", "https://", "ftp://", "HTTP://", "hTTpS://", "Ftp://", "http:", "https:/", "ftp:", "http", "https//", "ws://", "file://", "mailto:", "htt://", "httpss://", "http+s://", "", " http://", "://", "httpx://", "ht tp://">>)
                \o << <<65352>> \o C("ttp://"), C("http") \o <<9>> \o C("://"), C("http://") \o <<9>>, <<10>> \o C("http://") >>
LOCAL UrlHost == Cs(<<"example.com", "LOCALHOST", "localhost", "localhost.", "localhost.localdomain", "a.localhost", "127.0.0.1", "127.0.0.1.", "0x7f.1", "2130706433", "10.0.0.1", "8.8.8.8", "1.1", "192.168.0.1", "172.32.0.1",
                      "[::1]", "[::]", "[2001:4860::1]", "[fe80::1]", "[::ffff:10.0.0.1]", "[ff0e::1]", "[::1", "::1", "a_b", "a b", "", "%6cocalhost", "xn--a", "-a.com", "1.2.3.4.5", "256.1.1.1", "exa%00mple">>)
                 \o << <<20013, 25991>> \o C(".com"), C("localho") \o <<383>> \o C("t"), <<65297>> \o C("27.0.0.1") >>
LOCAL UrlTail == Cs(<<"", "/", ":80", ":443/", ":21", ":65536", ":x", "/p?q#f", "?", "#", "/../a", "/%zz", " ", "\\x">>)
LOCAL User == Cs(<<"", "u@", "u:p@", "@", ":@">>)
LOCAL UrlExact == << <<Scheme, UrlHost, Cs(<<"", "/">>)>>, <<Cs(<<"http://", "https://", "FTP://", "wss://">>), User, UrlHost, UrlTail>> >>
LOCAL UrlLoose == << <<Scheme, User, UrlHost, UrlTail>>, <<Cs(<<"http://", "https://", "ftp://">>), UrlHost, UrlTail, UrlTail>> >>
LOCAL UrlAlphabet == C("://@[].htpsf%1a?# \\") \o <<233, 9, 20013>>

(* ------------------------------------------------ Base32, Base64 ------ *)
LOCAL Tail4 == Cs(<<"A", "Q", "g", "B", "=", "", "-", "+">>)
LOCAL Tail8 == Cs(<<"A", "=", "">>)
LOCAL Base64Exact(odd) == << <<Cs(<<"", "AQ9z">>), Tail4, Tail4, Tail4, Tail4>>,
   << Cs(<<"AAAA", "A=AA", "AA==", "AA.A">>) \o << odd >>, Cs(<<"", "/", "_", "9", "z", "Z", " ", "@", "[", "`", "{", ":", "0", "a">>), Cs(<<"AA=", "AA", "A==", "A", "E=", "===", "", "AAA">>)>>,
   << Cs(<<"MTIzNDU2Nzg5MA", "5LmN5pqW6YKE5a-S5pmC5YCZ", "5LmN5pqW6YKE5a+S5pmC5YCZ", "////", "____">>), Cs(<<"", "=", "==", "===", "====", "=A", "= ">>) >> >>
LOCAL Base32Exact == << <<Tail8, Tail8, Tail8, Tail8, Tail8, Tail8, Tail8, Tail8>>,
   << Cs(<<"", "AAAAAAAA", "GEZDGNBV", "A=======", "AAAAAA==">>), Cs(<<"A", "7", "1", "8", "a", "@", "[">>), Cs(<<"A======", "B======", "E======", "4======", "AA=====", "AAA====", "AAQ====", "AAAA===", "AAAI===", "AAAAAA=", "AAAAAI=", "AAAAAAA", "A", "AA", "AAA", "AAI">>) >>,
   << Cs(<<"GEZDGNBVGY3TQOI">>), Cs(<<"", "=", "==", "=A", "A">>) >> >>
LOCAL Quad == Cs(<<"AAAA", "QUJD", "a0/+", "a0_-", "9999", "zzzz", "A=A=", "AB==">>)
LOCAL Base64Loose == << <<Quad, Quad, Tail4, Tail4, Tail4, Tail4>>, <<Quad, Tail4, Tail4, Tail4>>, <<Quad, Quad, Quad>> >>
LOCAL Oct == Cs(<<"AAAAAAAA", "GEZDGNBV", "77777777", "2345ZYXW", "AAAAAAA=">>)
LOCAL Char32 == Cs(<<"A", "Q", "I", "4", "7", "Z", "B", "=", "=", "">>)
LOCAL Base32Loose == << <<Oct, Char32, Char32, Char32, Char32, Char32, Char32, Char32, Char32>>, <<Char32, Char32, Cs(<<"======">>)>>, <<Char32, Char32, Char32, Char32, Cs(<<"====">>)>>,
                        <<Char32, Char32, Char32, Char32, Char32, Cs(<<"===">>)>>, <<Oct, Char32, Char32, Char32, Char32, Char32, Char32, Char32, Cs(<<"=">>)>>, <<Oct, Oct, Char32, Char32, Char32>> >>
LOCAL BaseAlphabet == C("AQgB=-+_/9z8 1a@.") \o <<0, 255, 200, 233, 8364>>

(* ------------------------------------------------ integers ------------ *)
LOCAL Edge == Cs(<<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "127", "128", "129", "254", "255", "256", "32767", "32768", "32769", "65534", "65535", "65536", "65537",
  "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967301", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809",
  "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551621", "170141183460469231731687303715884105726", "170141183460469231731687303715884105727",
  "170141183460469231731687303715884105728", "170141183460469231731687303715884105729", "340282366920938463463374607431768211454", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
  "1000000000000000000000000000000000000000000", "261", "65541">>)
LOCAL Sign == Cs(<<"", "-", "+">>)
LOCAL OddInt == Cs(<<"", "+", "-", "+-5", "--5", "++5", "0x5", "5.0", "1_0", " 5", "5 ", "1e1", "00005", "-0", "+0", "-00", "007", "5,0", "5\\", "t", "-00000000000000000000000000000000000000000000128", "00000000000000000000000000000000000000000000255">>)
                \o << <<65301>>, C("5") \o <<0>>, <<1637>>, C("5") \o <<10>>, <<8722>> \o C("5") >>
LOCAL IntExact == << <<Sign, Edge>>, <<OddInt>> >>
LOCAL Dg == Cs(<<"0", "1", "2", "5", "9", "7", "">>)
LOCAL IntLoose == << <<Sign, Dg, Dg, Dg>>, <<Sign, Cs(<<"0", "00">>), Edge>>, <<Sign, Edge, Cs(<<"0", "", "">>)>>, <<Sign, Dg, Dg, Dg, Dg, Dg>> >>
LOCAL IntAlphabet == C("+-0123456789.e_ x") \o <<65301>>

(* ------------------------------------------------ floats -------------- *)
LOCAL FloatEdge == Cs(<<"0", "1", "0.0", "0.1", "0.10000000149011612", "0.100000001", "0.1000000001", "0.09999999", "0.25", "0.75", "0.5", "1.0", "1.5", "2", "2.5", "2.5000001", "2.50000001", "1.5000000000000002", "1.0000001", "1.00000001", "0.9999999999999999", "0.99999999",
  "3.4e38", "3.4028234663852886e38", "3.4028236e38", "1e39", "1e308", "1.7976931348623157e308", "1.8e308", "1e400", "1e-10", "1.0000000001e-10", "1e-45", "1e-46", "5e-324", "1e-400", "1e10", "9999999999", "10000000001", "123456789012345678901234567890", "inf", "infinity", "nan", "NaN", "NAN", "INF", "Infinity", "iNf"
  >>)
LOCAL OddFloat == Cs(<<"", ".", "1.", ".5", "+.5e1", "1e", "1e+", "1e+5", "1E5", "1e-5", "e5", "1.2.3", "1e5.0", "1e5e5", "0x1p3", "1f", "1_0.0", " 1", "1 ", "infin", "nanx", "in", "na", "infinityy", "-.", "+", "-", "--1", ".e1", "1,5", "00.50", "1e00005", "1e99999999999999999999", "1e-99999999999999999999", "0e99999">>) \o << <<65297>>, C("1") \o <<0>>, <<8734>> >>
LOCAL FloatExact == << <<Sign, FloatEdge>>, <<OddFloat>> >>
LOCAL FloatLoose == << <<Sign, Dg, Cs(<<".", ".", "">>), Dg, Dg, Cs(<<"", "", "e", "E-", "e+">>), Dg>>, <<Sign, FloatEdge, Cs(<<"", "0", "e1", "e-1", "5">>)>>, <<Sign, Cs(<<"0.", "1.", "2.", "10000000000.">>), Dg, Dg, Dg, Dg>> >>
LOCAL FloatAlphabet == C("+-.eE0123459infaN _")

(* ------------------------------------------------ sizes --------------- *)
LOCAL SizeNum == Cs(<<"0", "1", "1.5", "8", "80", "7", "5", "1024", "1000", "1501", "1500.1", "0.0001", "0.9", "0.999", "0.125", "1.", ".5", "007", "18446744073709551615", "18446744073709551616", "18446744073709551614.5", "147573952589676412927", "147573952589676412928",
  "15.99999999999999999999", "16", "79228162514264337593543950335", "79228162514264337593543950336", "0.0000000000000000000000000001", "0.00000000000000000000000000001", "1.50", "1.5.5", "-1", "+1", "", "x">>)
LOCAL SizeUnit == Cs(<<"", "b", "B", "k", "K", "kb", "KB", "kB", "Kib", "KiB", "kIb", "Ki", "bit", "bits", "BITS", "Bits", "kbit", "Kibits", "MB", "Mib", "GB", "gb", "T", "TiB", "PB", "Eib", "EB", "E", "Ebit", "EiB", "ZB", "YiB", "x", "bi", "bitss", "KiBx", "iB", "KK", "B B", "ib">>) \o << <<233>>, <<8490>> \o C("B") >>
LOCAL Gap == Cs(<<"", " ", "  ">>)
LOCAL SizeExact == << <<SizeNum, SizeUnit>>, <<Cs(<<"8", "1.5", "1000", "15.999999999999999999">>), Cs(<<" ", "  ">>) \o << <<9>>, <<12288>> >>, SizeUnit>>, <<Cs(<<" ", "", "  ">>) \o << <<12288>>, <<10>> >>, Cs(<<"8", "80 kb", "k">>), Cs(<<" ", "", " x">>) \o << <<12288>> >> >>, <<Sign, Edge>> >>
LOCAL SizeLoose == << <<Dg, Dg, Dg, Cs(<<".", "">>), Dg, Dg, Gap, SizeUnit>>, <<Dg, Dg, Gap, SizeUnit>>, <<Dg, Dg, Dg, Dg, Dg>>, <<SizeNum, Gap, SizeUnit, Gap>> >>
LOCAL SizeAlphabet == C("0158.kKiIbBtTsMGE -") \o <<233, 9>>

(* ------------------------------------------------ JSON ---------------- *)
LOCAL JNum == Cs(<<"0", "1", "-1", "-0", "255", "256", "1.0", "1.50", "1e2", "1E+2", "1e-7", "01", "-", "+1", "1.", ".5", "1e", "1.e1", "-01", "9007199254740993", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809",
  "1e308", "1e309", "-1e400", "1e-400", "0e999", "123456789012345678901234567890", "0.1", "3.141592653589793238", "1e21", "100000000000000000000", "1.7976931348623159e308", "NaN", "Infinity", "0x1", "--1", "5e-324">>)
LOCAL JStr == Cs(<<"\"\"", "\"a\"", "\"a b\"", "\"\\n\"", "\"\\u0041\"", "\"\\u0000\"", "\"\\u001f\\b\\f\\r\\t\\/\\\\\\\"\"", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "\"\\ude00\"", "\"\\ud83d\\u0041\"", "\"\\uD83Dx\"", "\"\\x\"", "\"\\u12\"", "\"a", "a\"", "'a'", "\"\\\"", "\"\\u007f\"", "\"\\u20AC\"", "\"1\"", "\"true\"", "\"null\"">>)
   \o << <<34, 233, 34>>, <<34, 10, 34>>, <<34, 127, 34>>, <<34, 128512, 34>>, <<34, 0, 34>>, <<34, 8232, 34>>, <<65279>> \o C("1") >>
LOCAL JWordTpl == Cs(<<"null", "true", "false", "True", "nul", "nulll", "", "[", "]", "{", "}", ",", ":", "undefined", "truefalse", "1 2", "//", "[]", "{}">>)
LOCAL JItem == Cs(<<"null", "true", "0", "255", "256", "-1", "1.5", "\"a\"", "[]", "{}", "[1]", "{\"a\":1}", "", "1e309", "\"\\u00e9\"", "[[1,2],[]]", "{\"b\":{\"c\":[true,null]}}">>)
LOCAL JSep == Cs(<<",", " , ", ",,", "", ":">>) \o << <<44, 10>> >>
LOCAL JName == Cs(<<"\"a\"", "\"b\"", "\"\"", "\"\\u0061\"", "a", "1", "\"a\\n\"", "">>)
LOCAL JColon == Cs(<<":", " : ", "", "::", ",">>)
LOCAL Deep(n) == [i \in 1..n |-> 91] \o [i \in 1..n |-> 93]
LOCAL JGap == Cs(<<"", " ">>) \o << <<9, 10, 13>>, <<160>>, <<11>> >>
LOCAL JsonExact == << <<JNum \o JStr \o JWordTpl>>, <<JGap, Cs(<<"1", "true", "\"a\"", "[ ]", "{ }", "[1 ,2]", "{\"a\" : 1 }">>), JGap>>, <<Cs(<<"[">>), JItem, Cs(<<"]", "", "}">>)>>, <<Cs(<<"[">>), JItem, JSep, Cs(<<"1", "\"b\"", "[]", "">>), Cs(<<"]">>)>>,
   <<Cs(<<"{">>), JName, JColon, JItem, Cs(<<"}">>)>>, <<Cs(<<"{\"a\":1", "{\"a\":{}">>), Cs(<<",", "", ", ">>), JName, Cs(<<":">>), Cs(<<"2", "[]", "">>), Cs(<<"}", "]">>)>>, << <<Deep(20), Deep(60), Deep(20) \o <<93>> >> >>,
   <<Sign, Cs(<<"0", "1", "5", "255", "256", "127", "128", "18446744073709551615", "18446744073709551616", "9223372036854775808", "340282366920938463463374607431768211455", "1.5", "1e300", "0.1", "true", "false">>)>> >>
LOCAL JsonLoose == << <<Cs(<<"[">>), JItem, JSep, JItem, JSep, JItem, Cs(<<"]">>)>>, <<Cs(<<"{">>), JName, JColon, JItem, Cs(<<",">>), JName, Cs(<<":">>), JItem, Cs(<<"}">>)>>, <<Cs(<<"[">>), JNum, Cs(<<",">>), JStr, Cs(<<"]">>)>>,
   <<Cs(<<"{\"x\":[">>), JStr, Cs(<<",">>), JNum, Cs(<<"],">>), JName, Cs(<<":">>), JStr, Cs(<<"}">>)>>, <<Cs(<<"[[">>), JItem, Cs(<<"],{\"k\":">>), JItem, Cs(<<"}]">>)>>, <<Cs(<<"[\"">>), JGap, Cs(<<"a", "\\", "\\u">>), Cs(<<"00e9", "n", "\"", "d800">>), Cs(<<"\"]">>)>> >>
LOCAL JsonAlphabet == C("[]{},:\"\\u01-.eE tn") \o <<233, 10, 0>>

(* ------------------------------------------------ phone numbers ------- *)
LOCAL Dial == Cs(<<"", "+", "00", "011", "010", "0011", "810", "tel:", "(", "+ ", "0", "1", "8">>)
LOCAL CallCode == Cs(<<"1", "44", "886", "81", "33", "39", "61", "7", "", "999", "0", "(0)">>)
LOCAL Local == Cs(<<"4155552671", "415-555-2671", "(415) 555-2671", "6135550123", "613 555 0123", "1184960123", "0118 496 0123", "1144960123", "2079460958", "7400123456", "912345678", "0912345678", "0912-345-678", "223456789", "9012345678", "090-1234-5678", "312345678",
  "0312345678", "612345678", "0612345678", "3123456789", "0612345678", "0698123456", "412345678", "0412345678", "7011234567", "9161234567", "8005550199", "18005550199", "8001234567", "5552671", "1", "12", "123", "", "0", "00", "4155552671 ext. 5", "4155552671x123", "1-800-FLOWERS", "9999999999", "12345678901234567", "123456789012345678", "+", "abc", "4155552671;ext=9">>)
   \o << <<65300, 65297, 65301, 65301, 65301, 65301, 65298, 65302, 65303, 65297>>, C("415") \o <<8211>> \o C("5552671"), C("415") \o <<160>> \o C("5552671") >>
LOCAL PhoneExact == << <<Dial, CallCode, Local>> >>
LOCAL PhoneDigit == Cs(<<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", " ", "-">>)
LOCAL PhoneLoose == << <<Dial, CallCode, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit>>, <<Cs(<<"0", "+1", "+44", "+81", "+33", "+7", "011", "+886", "+39">>), PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit>>,
   <<Cs(<<"+1415555", "011849601", "0115496", "0800", "+1613555", "0116496", "02079460", "0039", "+7701">>), PhoneDigit, PhoneDigit, PhoneDigit, PhoneDigit>> >>
LOCAL PhoneAlphabet == C("0123456789+-() x;") \o <<65297, 8211>>

(* ------------------------------------------------ text, line ---------- *)
LOCAL Ctl == [i \in 1..35 |-> IF i <= 32 THEN <<i - 1>> ELSE IF i = 33 THEN <<127>> ELSE IF i = 34 THEN <<128>> ELSE <<32>>]
LOCAL Wide == << <<97>>, <<233>>, <<8364>>, <<128512>>, <<32>>, <<160>>, <<8195>>, <<12288>>, <<9>>, <<133>>, <<8203>>, <<65279>>, <<6158>>, <<8232>> >>
LOCAL TextExact == << <<Ctl>>, <<Cs(<<"", "a", "  ">>), Ctl, Cs(<<"", "a", " ">>)>>, <<Cs(<<"", "ab ", "aaaaaa", "      ">>), Ctl, Cs(<<"", "b">>)>>,
   << <<E, C(" "), <<12288>>, C("  "), <<9>>, <<13>>, <<160>> >>, <<E, C("a"), C("aa"), <<233>>, <<128512>>, C("a a"), C("aaa"), C("a  a"), C("aaaa"), C("a") \o <<11>> \o C("a")>>, <<E, C(" "), <<12288>>, C("   "), <<10>>, <<8203>>, <<133>> >> >> >>
LOCAL TextLoose == << <<Wide, Wide, Wide, Wide>>, <<Wide, Wide, Wide>>, <<Wide, Wide, Wide, Wide, Wide>>, <<Wide, Ctl, Wide>>, <<Wide, Wide>>, <<Wide, Wide, Wide, Wide, Wide, Wide, Wide>> >>
LOCAL TextAlphabet == C("ab  ") \o <<0, 9, 10, 11, 12, 13, 27, 31, 127, 160, 233, 8195, 8364, 12288, 128512, 8203>>

(* ------------------------------------------------ collections --------- *)
LOCAL Item == << <<1>>, <<2>>, <<3>>, E >>
LOCAL LengthExact == << <<Item, Item, Item, Item>>, << <<E, <<0>>, <<255>>, <<1114111>> >>, <<E, <<7, 7, 7, 7, 7>>, <<7, 8, 9>> >> >> >>
LOCAL LengthLoose == << <<Item, Item, Item, Item, Item>>, <<Item, Item>> >>

(* ------------------------------------------------ truth values -------- *)
LOCAL WordStart == Cs(<<"t", "T", "f", "F", "y", "Y", "n", "N", "o", "O", "0", "1", "">>)
LOCAL BooleanExact == << <<Cs(<<"t", "T", "f", "y", "n", "o", "">>), Cs(<<"r", "R", "a", "e", "o", "f", "n", "O", "">>), Cs(<<"u", "U", "l", "s", "f", "S", "">>), Cs(<<"e", "E", "s", "">>), Cs(<<"", "e", "x">>)>>,
   <<WordStart, Cs(<<"", "0", "1", " ", "x", "on", "n", "ff", "o", "es", "ES", "eS", "rue", "RUE", "rUe", "alse", "ALSE", "aLsE", "lase", "FF", "Ff", "fF">>), Cs(<<"", "x", " ", "0">>)>>,
   <<Sign, Edge>>, <<Cs(<<"", "0", "00", "-0", "+1", "-1", "01", "2", "true", "false", " true", "true ", "truth">>)>>, << << <<305>>, <<8203>> \o C("1"), <<65297>>, C("fal") \o <<383>> \o C("e"), <<383>>, C("ye") \o <<383>> >> >> >>
LOCAL BooleanLoose == << <<WordStart, Cs(<<"n", "ff", "o", "es", "rue", "alse", "RUE", "">>)>> >>
LOCAL BooleanAlphabet == C("tTrRuUeEfFaAlLsSyYnNoO01 ") \o <<305, 383>>

(* ------------------------------------------------ patterns ------------ *)
LOCAL Piece == Cs(<<"a", "b", "c", "A", "J", "1", "0", "10", "9", "f", "g", "", "yes", "YES", "-", "2024-01-31", "ab">>) \o << <<10>>, <<233>>, <<1637>>, <<65297>> >>
LOCAL RegexExact == << <<Piece, Piece>>, <<Cs(<<"2024", "202", "20240", "abcd">>), Cs(<<"-", "/">>), Cs(<<"01", "1">>), Cs(<<"-">>), Cs(<<"31", "311", "x1">>)>> >>
LOCAL RegexLoose == << <<Piece, Piece, Piece>> >>

(* ------------------------------------------------ versions ------------ *)
LOCAL VNum == Cs(<<"0", "1", "10", "01", "18446744073709551615", "18446744073709551616", "", "a", "99999999999999999999">>)
LOCAL VPre == Cs(<<"", "-alpha", "-0", "-01", "-1.a", "-a.01", "-a..b", "-", "-a-b", "--", "-0a", "-a_b", "-00a", "-1.2.3">>)
LOCAL VBuild == Cs(<<"", "+b", "+01", "+", "+a.b", "+a..b", "+a+b", "+a-b", "+00.x">>)
LOCAL SemverExact == << <<VNum, Cs(<<".">>), Cs(<<"0", "2", "02", "">>), Cs(<<".">>), Cs(<<"0", "3", "03", "", "18446744073709551616">>), Cs(<<"", "-a", "+b">>)>>,
   <<Cs(<<"1.2.3">>), VPre, VBuild>>, <<Cs(<<"", " ", "v", "=">>), Cs(<<"1.2.3", "1.2", "1", "1.2.3.4", "1.2.*", "1..3">>), Cs(<<"", " ", "-a", ".">>)>> >>
LOCAL SemverLoose == << <<VNum, Cs(<<".", ".", "">>), VNum, Cs(<<".", ".", "..">>), VNum, VPre, VBuild>>, <<Cs(<<"1.2.3", "0.0.0">>), VPre, VBuild>> >>
LOCAL ReqOp == Cs(<<"", "=", ">", ">=", "<", "<=", "~", "^", "==", "> ", "=>", "!", "~>", "^ ">>)
LOCAL ReqVer == Cs(<<"1.2.3", "1.2", "1", "*", "1.*", "1.2.*", "1.*.3", "0", "01", "x", "1.2.3-a", "1.2.3-a+b", "1.2-a", "", "1.2.3+b", "18446744073709551616", "X.1">>)
LOCAL ReqExact == << <<ReqOp, ReqVer>>, <<Cs(<<">=1", "<2", "1.2.3">>), Cs(<<",", ", ", " ", ",,", " ,">>), ReqOp, ReqVer>>, <<Cs(<<" ", "">>), ReqVer, Cs(<<" ", ",">>)>> >>
LOCAL ReqLoose == << <<ReqOp, ReqVer, Cs(<<", ", ",">>), ReqOp, ReqVer>>, <<ReqOp, ReqVer>> >>
LOCAL SemverAlphabet == C("0123.-+*^~>=<, ax_vX") \o <<233>>

MiscFams == {"url", "http_url", "http_ftp_url", "base32", "base64", "base64_url", "base32_decoded", "base64_decoded", "base64_url_decoded", "signed_integer", "unsigned_integer", "number",
             "text", "line", "length", "boolean", "regex", "semver", "semver_req", "byte", "bit", "json", "phone"}
MiscExact(fam) ==
  CASE fam \in {"url", "http_url", "http_ftp_url"} -> UrlExact
    [] fam \in {"base64", "base64_decoded"} -> Base64Exact(C("++++"))
    [] fam \in {"base64_url", "base64_url_decoded"} -> Base64Exact(C("----"))
    [] fam \in {"base32", "base32_decoded"} -> Base32Exact
    [] fam \in {"signed_integer", "unsigned_integer"} -> IntExact
    [] fam = "number" -> FloatExact
    [] fam \in {"text", "line"} -> TextExact
    [] fam \in {"byte", "bit"} -> SizeExact
    [] fam = "json" -> JsonExact
    [] fam = "phone" -> PhoneExact
    [] fam = "length" -> LengthExact
    [] fam = "boolean" -> BooleanExact
    [] fam = "regex" -> RegexExact
    [] fam = "semver" -> SemverExact
    [] fam = "semver_req" -> ReqExact
MiscLoose(fam) ==
  CASE fam \in {"url", "http_url", "http_ftp_url"} -> UrlLoose
    [] fam \in {"base64", "base64_decoded", "base64_url", "base64_url_decoded"} -> Base64Loose
    [] fam \in {"base32", "base32_decoded"} -> Base32Loose
    [] fam \in {"signed_integer", "unsigned_integer"} -> IntLoose
    [] fam = "number" -> FloatLoose
    [] fam \in {"text", "line"} -> TextLoose
    [] fam \in {"byte", "bit"} -> SizeLoose
    [] fam = "json" -> JsonLoose
    [] fam = "phone" -> PhoneLoose
    [] fam = "length" -> LengthLoose
    [] fam = "boolean" -> BooleanLoose
    [] fam = "regex" -> RegexLoose
    [] fam = "semver" -> SemverLoose \o RegexLoose
    [] fam = "semver_req" -> ReqLoose
MiscAlphabet(fam) ==
  CASE fam \in {"url", "http_url", "http_ftp_url"} -> UrlAlphabet
    [] fam \in {"base64", "base64_decoded", "base64_url", "base64_url_decoded", "base32", "base32_decoded"} -> BaseAlphabet
    [] fam \in {"signed_integer", "unsigned_integer"} -> IntAlphabet
    [] fam = "number" -> FloatAlphabet
    [] fam \in {"text", "line"} -> TextAlphabet
    [] fam \in {"byte", "bit"} -> SizeAlphabet
    [] fam = "json" -> JsonAlphabet
    [] fam = "phone" -> PhoneAlphabet
    [] fam = "length" -> <<1, 2, 9, 300>>
    [] fam = "boolean" -> BooleanAlphabet
    [] fam = "regex" -> C("aAbJ10-9fgyes") \o <<10, 233>>
    [] fam \in {"semver", "semver_req"} -> SemverAlphabet
=============================================================================
