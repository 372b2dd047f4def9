------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Text as boxes sees it: sequences of Unicode code points, some of which  *)
(* are blank, double-wide or zero-width, and some of which belong to ANSI  *)
(* escape sequences and are invisible.                                     *)
(*                                                                         *)
(* A "string" is a sequence of code points (integers). A "bstring" is the  *)
(* analysed form of a string, a record with                                *)
(*   m    the code points                                                  *)
(*   v    positions of the visible characters in m, plus Len(m)+1          *)
(*   f    for each visible character the position at which it starts when  *)
(*        the escape sequence in front of it is counted in, plus Len(m)+1  *)
(*   cols number of display columns                                        *)
(*   ind  display columns of leading blanks                                *)
(*   trl  number of trailing blank characters (0 if all are blank)         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

SP  == 32
TAB == 9
LF  == 10
CR  == 13
ESC == 27
QM  == 63

\* Display width (the part of Unicode that the generators draw from).
IsWideCP(c) ==
  \/ c >= 4352 /\ c <= 4447                           \* Hangul Jamo
  \/ c >= 11904 /\ c <= 42191 /\ c /= 12351           \* CJK, Kana, U+3000
  \/ c >= 44032 /\ c <= 55203                         \* Hangul syllables
  \/ c >= 63744 /\ c <= 64255                         \* CJK compatibility
  \/ c >= 65281 /\ c <= 65376                         \* full-width forms
  \/ c >= 127744 /\ c <= 128591                       \* pictographs, emoticons
  \/ c >= 129280 /\ c <= 129535
  \/ c >= 131072 /\ c <= 196605
IsZeroCP(c) ==
  \/ c >= 768 /\ c <= 879                             \* combining diacritics
  \/ c >= 8203 /\ c <= 8207
  \/ c >= 65024 /\ c <= 65039                         \* variation selectors
  \/ c = 65279
Width(c) == IF c < 768 THEN (IF c < 32 THEN (IF c = TAB THEN 1 ELSE 0) ELSE 1)
            ELSE IF IsZeroCP(c) THEN 0 ELSE IF IsWideCP(c) THEN 2 ELSE 1

\* Horizontal blanks.
IsBlank(c) == c = SP \/ c = TAB
              \/ (c > 5000 /\ (c = 5760 \/ (c >= 8192 /\ c <= 8202 /\ c /= 8199) \/ c = 8287 \/ c = 12288))
\* Anything that counts as white space at the end of an input line.
IsWhite(c) == IsBlank(c) \/ c = LF \/ c = CR \/ c = 11 \/ c = 12 \/ c = 133 \/ c = 160
              \/ c = 8199 \/ c = 8239 \/ c = 8232 \/ c = 8233

Rep(c, n) == [i \in 1..n |-> c]
Spaces(n) == [i \in 1..n |-> SP]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
SetOf(s) == {s[i] : i \in 1..Len(s)}
From(s, i) == SubSeq(s, i, Len(s))                    \* s from position i on
Upto(s, i) == SubSeq(s, 1, i)                         \* first i of s
Concat(ss) == FlattenSeq(ss)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE RepeatSeq(_, _)
RepeatSeq(s, n) == IF n <= 0 THEN <<>> ELSE s \o RepeatSeq(s, n - 1)
RECURSIVE JoinSeq(_, _)
JoinSeq(ss, sep) == IF ss = <<>> THEN <<>>
                    ELSE IF Len(ss) = 1 THEN Head(ss) ELSE Head(ss) \o sep \o JoinSeq(Tail(ss), sep)

Cols(s) == FoldLeft(LAMBDA a, c : a + Width(c), 0, s)

(***************************************************************************)
(* Escape sequences: ESC [ ... final  or  ESC ( ... final  or  ESC X.      *)
(* EscEnd(s, i) is the position after the sequence starting at s[i] = ESC. *)
(***************************************************************************)
RECURSIVE CsiEnd(_, _)
CsiEnd(s, i) == IF i > Len(s) THEN i
                ELSE IF s[i] >= 64 /\ s[i] <= 126 THEN i + 1 ELSE CsiEnd(s, i + 1)
EscEnd(s, i) == IF i + 1 > Len(s) THEN i + 1
                ELSE IF s[i+1] = 91 \/ s[i+1] = 40 THEN CsiEnd(s, i + 2)
                ELSE IF s[i+1] >= 64 /\ s[i+1] <= 95 THEN i + 2 ELSE i + 1
IsFinal(c) == c >= 64 /\ c <= 126
CharAt(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
\* Sequences which switch something off belong to the text in front of them.
IsReset(s, i) ==
  /\ CharAt(s, i+1) = 91 \/ CharAt(s, i+1) = 40
  /\ LET x == CharAt(s, i+2)
         y == CharAt(s, i+3)
     IN \/ IsFinal(x)
        \/ x = 48 /\ IsFinal(y)
        \/ <<x, y>> \in {<<49,48>>, <<51,57>>, <<52,57>>, <<53,57>>, <<55,53>>} /\ IsFinal(CharAt(s, i+4))
HasEsc(s) == Contains(s, ESC)

RECURSIVE ScanVis(_, _, _, _, _)
\* i: position; cand: position of an escape sequence directly in front, or 0
ScanVis(s, i, cand, v, f) ==
  IF i > Len(s) THEN [v |-> Append(v, i), f |-> Append(f, i)]
  ELSE IF s[i] = ESC
       THEN ScanVis(s, EscEnd(s, i), IF IsReset(s, i) THEN 0 ELSE IF cand = 0 THEN i ELSE cand, v, f)
       ELSE ScanVis(s, i + 1, 0, Append(v, i), Append(f, IF cand = 0 THEN i ELSE cand))

Vis(s) == IF ~HasEsc(s) THEN s
          ELSE LET v == ScanVis(s, 1, 0, <<>>, <<>>).v
               IN [k \in 1..(Len(v) - 1) |-> s[v[k]]]

RECURSIVE LeadCols(_, _, _)
LeadCols(s, i, acc) == IF i > Len(s) \/ ~IsBlank(s[i]) THEN acc ELSE LeadCols(s, i + 1, acc + Width(s[i]))
RECURSIVE TrailBlanks(_, _)
TrailBlanks(s, n) == IF n = 0 \/ ~IsBlank(s[n]) THEN Len(s) - n ELSE TrailBlanks(s, n - 1)

Str(s) ==
  LET sc  == IF HasEsc(s) THEN ScanVis(s, 1, 0, <<>>, <<>>)
             ELSE [v |-> [k \in 1..(Len(s) + 1) |-> k], f |-> [k \in 1..(Len(s) + 1) |-> k]]
      vis == [k \in 1..(Len(sc.v) - 1) |-> s[sc.v[k]]]
      tb  == TrailBlanks(vis, Len(vis))
  IN [ m |-> s, v |-> sc.v, f |-> sc.f, cols |-> Cols(vis), ind |-> LeadCols(vis, 1, 0),
       trl |-> IF tb = Len(vis) THEN 0 ELSE tb ]

NVis(b) == Len(b.v) - 1                               \* number of visible characters
VisOf(b) == [k \in 1..NVis(b) |-> b.m[b.v[k]]]
IsMono(b) == NVis(b) = Len(b.m)
BlankStr(s) == \A i \in 1..Len(s) : IsBlank(s[i]) \/ s[i] = CR
BlankB(b) == BlankStr(VisOf(b))

\* Cut the first n visible characters, or the first n columns of indentation.
CutChars(b, n) == IF n >= NVis(b) THEN <<>> ELSE IF n = 0 THEN b.m ELSE From(b.m, b.f[n + 1])
RECURSIVE CharsForCols(_, _, _, _)
CharsForCols(b, n, found, want) ==
  IF found >= want \/ n >= NVis(b) THEN <<n, found>>
  ELSE CharsForCols(b, n + 1, found + Width(b.m[b.v[n + 1]]), want)
CutIndent(b, n) ==
  LET r == CharsForCols(b, 0, 0, n)
  IN IF r[2] > n THEN Spaces(r[2] - n) \o CutChars(b, r[1]) ELSE CutChars(b, r[1])

\* Remove trailing blanks (a string of blanks only is left as it is).
RTrim(s) == LET b == Str(s) IN IF b.trl = 0 THEN s ELSE Upto(s, b.f[NVis(b) - b.trl + 1] - 1)

\* Remove trailing white space from an input line, keeping one escape sequence
\* that directly follows the last character.
TrimInput(s) ==
  LET b    == Str(s)
      vis  == VisOf(b)
      lastK == MaxOf({k \in 1..Len(vis) : ~IsWhite(vis[k])})
      p    == IF lastK = 0 THEN 0 ELSE b.v[lastK]
  IN IF p = 0 THEN <<>>
     ELSE IF p < Len(s) /\ s[p+1] = ESC THEN Upto(s, Min2(EscEnd(s, p + 1) - 1, Len(s)))
     ELSE Upto(s, p)

\* ASCII case folding
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerS(s) == [i \in 1..Len(s) |-> Lower(s[i])]
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLess(Tail(a), Tail(b))
LessNoCase(a, b) == LexLess(LowerS(a), LowerS(b))
EqNoCase(a, b) == LowerS(a) = LowerS(b)
=============================================================================
