------------------------------- MODULE Claims -------------------------------
(***************************************************************************)
(* Relations between several runs which a property demands.  They are      *)
(* evaluated on what the real program did and on what the specification    *)
(* does; a claim is [t, a, b, s, x] with run numbers a and b.              *)
(*                                                                         *)
(*   same     runs a and b have the same output and status                 *)
(*   eol      a's output is that of b with line feeds replaced by x ...    *)
(*   vis      b's output is that of a without escape sequences             *)
(*   shape    a and b differ only in characters of the same width          *)
(*   enc      a's output is that of b as written in encoding s             *)
(*   back     if b succeeded, a's output is the text b had for input,      *)
(*            up to trailing blanks and blank lines at the ends            *)
(*   kept     a removed nothing but box parts from its input               *)
(*            (s: characters which the design is made of)                  *)
(*   inner    a and b are the same but for blank lines at the ends         *)
(*   among    a failed or is the same as one of the runs a+1..b            *)
(*   file     the file s contains a's output                               *)
(*   quiet    a failed, has no output and left a message                   *)
(*   done     a succeeded                                                  *)
(*   intact   if b succeeded, a has the same output                        *)
(***************************************************************************)
EXTENDS Views, Sequences

EolOf(t, x) == Concat([i \in 1..Len(t) |-> IF t[i] = LF THEN x ELSE <<t[i]>>])
SameShape(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : a[i] = b[i] \/ (a[i] > SP /\ b[i] > SP /\ Width(a[i]) = Width(b[i])
                                          /\ ~IsBlank(a[i]) /\ ~IsBlank(b[i]))

\* A text and how it comes back: the same up to trailing blanks and blank lines at the ends.
RTrimmed(t) == LET rs == RowsOf(t) IN [i \in 1..Len(rs) |-> RTrimSP(rs[i])]
NormalRows(t, ts) == LET ls == ReadLines(t, ts, FALSE) IN Inner([i \in 1..Len(ls) |-> RTrimSP(ls[i].s)])
ComesBack(out, t) ==
  LET rows == NormalRows(t, 8)
  IN /\ Inner(RTrimmed(out)) = rows
     /\ rows # <<>> /\ RTrimSP(Last(RowsOf(t))) # <<>> /\ Last(RTrimmed(out)) # <<>> => FinalBreak(out) = FinalBreak(t)

IsPart(s, of) == \E p \in 1..(Len(of) - Len(s) + 1) : SubSeq(of, p, p + Len(s) - 1) = s
\* every row of rows is part of a line of lines, in order
RECURSIVE PartsInOrder(_, _, _, _)
PartsInOrder(rows, i, lines, k) ==
  IF i > Len(rows) THEN TRUE
  ELSE IF k > Len(lines) THEN FALSE
  ELSE IF IsPart(rows[i], lines[k]) THEN PartsInOrder(rows, i + 1, lines, k + 1)
  ELSE PartsInOrder(rows, i, lines, k + 1)
RECURSIVE IsSubsequence(_, _, _, _)
IsSubsequence(a, i, b, k) ==
  IF i > Len(a) THEN TRUE ELSE IF k > Len(b) THEN FALSE
  ELSE IF a[i] = b[k] THEN IsSubsequence(a, i + 1, b, k + 1) ELSE IsSubsequence(a, i, b, k + 1)
KeptAll(input, output, marks, ts) ==
  LET ls    == ReadLines(input, ts, TRUE)
      lines == [i \in 1..Len(ls) |-> Trim(ls[i].s)]
      rows  == [i \in 1..Len(RowsOf(output)) |-> Trim(RowsOf(output)[i])]
      plain == SelectSeq(lines, LAMBDA l : l # <<>> /\ \A j \in 1..Len(l) : ~Contains(marks, l[j]))
  IN PartsInOrder(rows, 1, lines, 1) /\ IsSubsequence(plain, 1, rows, 1)

\* R: results [out, rc, says]; In: inputs of the runs; file(p): content of a file; written(s, e): s in encoding e
Holds(c, R, In, file(_), written(_, _)) ==
  LET a == R[c.a]
      b == R[c.b]
  IN CASE c.t = "same"  -> a.out = b.out /\ a.rc = b.rc
       [] c.t = "eol"   -> b.out = EolOf(a.out, c.x) /\ a.rc = b.rc
       [] c.t = "vis"   -> b.out = Vis(a.out) /\ a.rc = b.rc
       [] c.t = "shape" -> SameShape(a.out, b.out) /\ a.rc = b.rc
       [] c.t = "enc"   -> a.out = written(b.out, c.s) /\ a.rc = b.rc
       [] c.t = "back"  -> b.rc # 0 \/ (a.rc = 0 /\ ComesBack(a.out, In[c.b]))
       [] c.t = "kept"  -> a.rc # 0 \/ KeptAll(In[c.a], a.out, c.s, 8)
       [] c.t = "inner" -> Inner(RTrimmed(a.out)) = Inner(RTrimmed(b.out)) /\ a.rc = b.rc
       [] c.t = "among" -> a.rc # 0 \/ \E k \in (c.a + 1)..c.b : R[k].rc = 0 /\ R[k].out = a.out
       [] c.t = "file"  -> file(c.s) = a.out
       [] c.t = "quiet" -> a.rc # 0 /\ a.out = <<>> /\ a.says
       [] c.t = "done"  -> a.rc = 0
       [] c.t = "intact" -> b.rc # 0 \/ (a.rc = 0 /\ a.out = b.out)
=============================================================================
