------------------------------ MODULE TextBase ------------------------------
(* Strings are sequences of code points (str) or byte values (bytes).      *)
EXTENDS Outcome, TLC, FiniteSets
Range(f) == {f[i] : i \in DOMAIN f}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
From(s, i) == SubSeq(s, i, Len(s))
To(s, i) == SubSeq(s, 1, i)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET h == Len(ss) \div 2 IN Concat(To(ss, h)) \o Concat(From(ss, h + 1))
StartsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]
StartsWith(s, p) == StartsAt(s, 1, p)
EndsWith(s, p) == Len(p) <= Len(s) /\ StartsAt(s, Len(s) - Len(p) + 1, p)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* length of the longest string of S found at position i of s; 0 if none
LongestAt(s, i, S) == LET m == {Len(p) : p \in {q \in S : StartsAt(s, i, q)}} IN IF m = {} THEN 0 ELSE MaxOf(m)
\* the text types: "str" or "bytes"
TypeName(b) == IF b = 1 THEN "bytes" ELSE "str"
\* whitespace as documented ("Whitespace and line-breaking characters in Python and big")
CRLF == <<13, 10>>
Single(S) == {<<c>> : c \in S}
StrWs == (9..13) \cup (28..32) \cup {133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
StrNl == (10..13) \cup (28..30) \cup {133, 8232, 8233}
UniWs == StrWs \ (28..31)
UniNl == StrNl \ (28..31)
AsciiWs == {c \in UniWs : c < 128}
AsciiNl == {c \in UniNl : c < 128}
BytesNl == {10, 13}
Table(name) ==
  CASE name = "str_whitespace" -> Single(StrWs) \cup {CRLF}
    [] name = "str_whitespace_without_crlf" -> Single(StrWs)
    [] name = "unicode_whitespace" -> Single(UniWs) \cup {CRLF}
    [] name = "unicode_whitespace_without_crlf" -> Single(UniWs)
    [] name = "ascii_whitespace" -> Single(AsciiWs) \cup {CRLF}
    [] name = "ascii_whitespace_without_crlf" -> Single(AsciiWs)
    [] name = "bytes_whitespace" -> Single(AsciiWs) \cup {CRLF}
    [] name = "bytes_whitespace_without_crlf" -> Single(AsciiWs)
    [] name = "str_linebreaks" -> Single(StrNl) \cup {CRLF}
    [] name = "str_linebreaks_without_crlf" -> Single(StrNl)
    [] name = "unicode_linebreaks" -> Single(UniNl) \cup {CRLF}
    [] name = "unicode_linebreaks_without_crlf" -> Single(UniNl)
    [] name = "ascii_linebreaks" -> Single(AsciiNl) \cup {CRLF}
    [] name = "ascii_linebreaks_without_crlf" -> Single(AsciiNl)
    [] name = "bytes_linebreaks" -> Single(BytesNl) \cup {CRLF}
    [] name = "bytes_linebreaks_without_crlf" -> Single(BytesNl)
=============================================================================
