------------------------------- MODULE Encode -------------------------------
(* encode_strings and the exported tables of whitespace and line-break     *)
(* characters (property C36).  An object is a node <<kind, class, content>>:*)
(*   "str"/"bytes": content is the code points / bytes;                    *)
(*   "list"/"tuple": the nodes of its items;  "set": likewise, any order;  *)
(*   "dict": pairs <<key, value>> in order;  "other": any other object.    *)
(* class is the name of the object's class, "str" for a plain str etc.     *)
EXTENDS TextBase, Outcome
\* ---- one character; <<-1>> when the encoding has no code for it
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c \in 55296..57343 THEN <<-1>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf16(c) == IF c \in 55296..57343 THEN <<-1>>
            ELSE IF c < 65536 THEN <<c % 256, c \div 256>>
            ELSE LET d == c - 65536  h == 55296 + d \div 1024  l == 56320 + (d % 1024) IN <<h % 256, h \div 256, l % 256, l \div 256>>
Char(e, c) == CASE e = "ascii" -> IF c < 128 THEN <<c>> ELSE <<-1>>
                [] e = "latin-1" -> IF c < 256 THEN <<c>> ELSE <<-1>>
                [] e = "utf-8" -> Utf8(c)
                [] e = "utf-16-le" -> Utf16(c)
RECURSIVE Chars(_, _)
Chars(e, s) == IF s = <<>> THEN <<>> ELSE Char(e, s[1]) \o Chars(e, Tail(s))
\* ---- the problems of an object: what encoding it may raise
RECURSIVE Problems(_, _)
Problems(e, n) ==
  CASE n[1] = "str" -> IF \E i \in 1..Len(n[3]) : Char(e, n[3][i]) = <<-1>> THEN {"UnicodeEncodeError"} ELSE {}
    [] n[1] = "bytes" -> {}
    [] n[1] = "other" -> {"TypeError"}
    [] n[1] = "dict" -> UNION {Problems(e, n[3][i][1]) \cup Problems(e, n[3][i][2]) : i \in 1..Len(n[3])}
    [] OTHER -> UNION {Problems(e, n[3][i]) : i \in 1..Len(n[3])}
\* ---- the encoded object
RECURSIVE Enc(_, _)
Enc(e, n) ==
  CASE n[1] = "str" -> <<"bytes", "bytes", Chars(e, n[3])>>
    [] n[1] = "bytes" -> n
    [] n[1] = "dict" -> <<"dict", n[2], [i \in 1..Len(n[3]) |-> <<Enc(e, n[3][i][1]), Enc(e, n[3][i][2])>>]>>
    [] OTHER -> <<n[1], n[2], [i \in 1..Len(n[3]) |-> Enc(e, n[3][i])]>>
\* ---- is g that object?  Sets in any order, without duplicates
RECURSIVE IsNode(_, _)
IsNode(g, w) ==
  /\ g[1] = w[1] /\ g[2] = w[2]
  /\ CASE g[1] \in {"str", "bytes"} -> g[3] = w[3]
       [] g[1] = "other" -> TRUE
       [] g[1] = "dict" -> Len(g[3]) = Len(w[3]) /\ \A i \in 1..Len(w[3]) : IsNode(g[3][i][1], w[3][i][1]) /\ IsNode(g[3][i][2], w[3][i][2])
       [] g[1] = "set" -> /\ \A i \in 1..Len(w[3]) : \E j \in 1..Len(g[3]) : IsNode(g[3][j], w[3][i])
                          /\ \A i \in 1..Len(g[3]) : \E j \in 1..Len(w[3]) : IsNode(g[3][i], w[3][j])
       [] OTHER -> Len(g[3]) = Len(w[3]) /\ \A i \in 1..Len(w[3]) : IsNode(g[3][i], w[3][i])
\* two keys of a dict that encode to the same bytes, or two items of a set that differ in
\* their classes only: nothing says which of them stays
RECURSIVE NoClass(_)
NoClass(n) == CASE n[1] \in {"str", "bytes", "other"} -> <<n[1], n[1], n[3]>>
                [] n[1] = "dict" -> <<n[1], n[1], [i \in 1..Len(n[3]) |-> <<NoClass(n[3][i][1]), NoClass(n[3][i][2])>>]>>
                [] OTHER -> <<n[1], n[1], [i \in 1..Len(n[3]) |-> NoClass(n[3][i])]>>
RECURSIVE Collide(_)
Collide(n) ==   \* of an encoded node
  CASE n[1] \in {"str", "bytes", "other"} -> FALSE
    [] n[1] = "dict" -> \/ \E i, j \in 1..Len(n[3]) : i < j /\ IsNode(NoClass(n[3][i][1]), NoClass(n[3][j][1]))
                        \/ \E i \in 1..Len(n[3]) : Collide(n[3][i][1]) \/ Collide(n[3][i][2])
    [] n[1] = "set" -> \/ \E i, j \in 1..Len(n[3]) : i < j /\ IsNode(NoClass(n[3][i]), NoClass(n[3][j])) /\ ~IsNode(n[3][i], n[3][j])
                       \/ \E i \in 1..Len(n[3]) : Collide(n[3][i])
    [] OTHER -> \E i \in 1..Len(n[3]) : Collide(n[3][i])
EncodeVerdict(c) ==
  LET p == Problems(c.enc, c.node) IN
  IF p # {} THEN Clause("raises TypeError for another type, UnicodeEncodeError for a character without a code", c.o.ok = 0 /\ c.o.exc \in p)
  ELSE IF Collide(Enc(c.enc, c.node)) THEN {}
  ELSE IF c.o.ok = 0 THEN {"encodes every str, bytes, dict, set, list and tuple"}
  ELSE Clause("the same structure with every str encoded", IsNode(c.o.v, Enc(c.enc, c.node)))
       \cup Clause("its argument is not changed", IsNode(c.after, c.node))
       \cup Clause("and shares no container with the result", c.shared = 0)
\* ---- tables
Utf8Of(T) == {Chars("utf-8", s) : s \in T}
OldTable(name) ==
  CASE name = "whitespace" -> Table("str_whitespace")
    [] name = "whitespace_without_crlf" -> Table("str_whitespace_without_crlf")
    [] name = "linebreaks" -> Table("str_linebreaks")
    [] name = "linebreaks_without_crlf" -> Table("str_linebreaks_without_crlf")
    [] name = "whitespace_without_dos" -> Table("str_whitespace_without_crlf")
    [] name = "newlines" -> Table("str_linebreaks")
    [] name = "newlines_without_dos" -> Table("str_linebreaks_without_crlf")
    [] name = "ascii_whitespace_without_dos" -> Table("bytes_whitespace_without_crlf")
    [] name = "ascii_newlines" -> Table("bytes_linebreaks")
    [] name = "ascii_newlines_without_dos" -> Table("bytes_linebreaks_without_crlf")
    [] name = "utf8_whitespace" -> Utf8Of(Table("str_whitespace"))
    [] name = "utf8_whitespace_without_dos" -> Utf8Of(Table("str_whitespace_without_crlf"))
    [] name = "utf8_newlines" -> Utf8Of(Table("str_linebreaks"))
    [] name = "utf8_newlines_without_dos" -> Utf8Of(Table("str_linebreaks_without_crlf"))
    [] OTHER -> Table(name)
TableVerdict(c) ==
  IF c.o.ok = 0 THEN {"the table exists"} ELSE
  Clause("a tuple of str or bytes", c.o.t = c.type)
  \cup Clause("exactly these characters", Range(c.o.v) = OldTable(c.name))
  \cup Clause("each once", Len(c.o.v) = Cardinality(Range(c.o.v)))
\* what Python says: the specification's tables agree with str and bytes
PythonVerdict(c) ==
     Clause("Python's whitespace", Range(c.space) = StrWs /\ Range(c.bspace) = AsciiWs)
\cup Clause("Python's line breaks", Range(c.nl) = StrNl /\ Range(c.bnl) = BytesNl)
C36Verdict(c) == CASE c.fn = "encode" -> EncodeVerdict(c)
                   [] c.fn = "table" -> TableVerdict(c)
                   [] c.fn = "python" -> PythonVerdict(c)
=============================================================================
