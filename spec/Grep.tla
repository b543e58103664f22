-------------------------------- MODULE Grep --------------------------------
(* fgrep, grep, and the file name translations of big.file (property C31). *)
EXTENDS Regex
\* text mode: CR LF and CR are read as LF
RECURSIVE GNewlines(_)
GNewlines(s) ==
  LET at == {i \in 1..Len(s) : s[i] = 13} IN
  IF at = {} THEN s ELSE
  LET i == CHOOSE i \in at : \A j \in at : i <= j
  IN To(s, i - 1) \o <<10>> \o GNewlines(From(s, IF i < Len(s) /\ s[i + 1] = 10 THEN i + 2 ELSE i + 1))
\* the lines of a file: each ends at a newline, except perhaps the last
RECURSIVE GSplit(_)
GSplit(s) ==
  IF s = <<>> THEN <<>> ELSE
  LET at == {i \in 1..Len(s) : s[i] = 10} IN
  IF at = {} THEN <<s>> ELSE
  LET i == CHOOSE i \in at : \A j \in at : i <= j
  IN <<To(s, i - 1)>> \o GSplit(From(s, i + 1))
GLines(s, b) == GSplit(IF b = 1 THEN s ELSE GNewlines(s))
\* letters without their case (ASCII for bytes)
GFoldCh(c, b) == IF c \in 65..90 THEN c + 32 ELSE IF b = 1 THEN c
                 ELSE IF c \in 913..937 \ {930} THEN c + 32            \* Greek
                 ELSE IF c = 962 THEN 963
                 ELSE IF c \in (192..222) \ {215} THEN c + 32          \* Latin-1
                 ELSE IF c \in 1040..1071 THEN c + 32                  \* Cyrillic
                 ELSE c
GFold(s, b) == [i \in 1..Len(s) |-> GFoldCh(s[i], b)]
GIn(t, s) == \E i \in 1..(Len(s) + 1) : StartsAt(s, i, t)
GHas(c, line) == IF c.fn = "grep" THEN Search(c.r, line, 1, FALSE) # <<>>
                 ELSE IF c.ci = 1 THEN GIn(GFold(c.text, c.b), GFold(line, c.b)) ELSE GIn(c.text, line)
GFound(c) == LET ls == GLines(c.s, c.b)
                 hit == SelectSeq([i \in 1..Len(ls) |-> <<i, ls[i]>>], LAMBDA x : GHas(c, x[2]))
             IN hit
GGrepClauses(c) ==
  IF c.badenc = 1 THEN Clause("encoding with bytes is a ValueError", c.o.exc = "ValueError")
  ELSE IF c.missing = 1 THEN Clause("a missing file raises", c.o.exc = "FileNotFoundError")
  ELSE LET f == GFound(c) IN
    Clause("returns", c.o.ok = 1)
    \cup (IF c.o.ok = 0 THEN {} ELSE
      Clause("type", c.o.t = (IF f = <<>> THEN "none found" ELSE IF c.enum = 1 THEN "enumerated " \o TypeName(c.b) ELSE TypeName(c.b)))
      \cup (IF c.o.t # (IF c.enum = 1 THEN "enumerated " \o TypeName(c.b) ELSE TypeName(c.b)) THEN {} ELSE
        Clause("exactly the matching lines", c.o.v = IF c.enum = 1 THEN f ELSE [i \in 1..Len(f) |-> f[i][2]])))
(* ------------------------------ file names ------------------------------- *)
GIllegalUnix  == {0, 47}
GIllegalExfat == (0..31) \cup {47, 92, 58, 42, 63, 34, 60, 62, 124}
GIllegal(fn) == IF fn = "unix" THEN GIllegalUnix ELSE GIllegalExfat
GHex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
\* can s[i..] have become o[j..]?  A legal character stays; an illegal one becomes legal characters; (exFAT) ": " becomes " - ".
\* marks: the control characters may become "?" and two hexadecimal digits (which is not legal)
RECURSIVE GTr(_, _, _, _, _, _)
GTr(fn, s, i, o, j, marks) ==
  IF i > Len(s) THEN j = Len(o) + 1
  ELSE IF fn = "exfat" /\ s[i] = 58 /\ i < Len(s) /\ s[i + 1] = 32 THEN StartsAt(o, j, <<32, 45, 32>>) /\ GTr(fn, s, i + 2, o, j + 3, marks)
  ELSE IF s[i] \notin GIllegal(fn) THEN j <= Len(o) /\ o[j] = s[i] /\ GTr(fn, s, i + 1, o, j + 1, marks)
  ELSE \/ \E n \in 1..3 : j + n - 1 <= Len(o) /\ (\A k \in j..(j + n - 1) : o[k] \notin GIllegal(fn)) /\ GTr(fn, s, i + 1, o, j + n, marks)
       \/ marks /\ s[i] \in 1..31 /\ StartsAt(o, j, <<63, GHex(s[i] \div 16), GHex(s[i] % 16)>>) /\ GTr(fn, s, i + 1, o, j + 3, marks)
GNameClauses(c) ==
  IF c.bad = 1 THEN Clause("ValueError", c.o.exc = "ValueError")
  ELSE IF c.o.ok = 0 \/ c.o.t # "str" THEN {"returns a str"}
  ELSE IF GTr(c.fn, c.s, 1, c.o.v, 1, FALSE) THEN {}
  ELSE IF c.fn = "exfat" /\ GTr(c.fn, c.s, 1, c.o.v, 1, TRUE) THEN {"control characters become names with a question mark"}
  ELSE {"only illegal characters change, and into legal ones"}
GVerdict(c) == IF c.what = "grep" THEN GGrepClauses(c) ELSE GNameClauses(c)
=============================================================================
