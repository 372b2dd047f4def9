------------------------------- MODULE Input -------------------------------
(***************************************************************************)
(* Reading text: splitting into lines, trimming, tab expansion, common     *)
(* indentation, replacement rules.                                         *)
(*                                                                         *)
(* A line is [s |-> string, tabs |-> display columns (from 0) of tabs]. *)
(* The text block is [lines, indent, maxline, final].                      *)
(***************************************************************************)
EXTENDS Chars, Regex

RECURSIVE SplitLines(_, _, _)
\* i: start of the current line; k: current position
SplitLines(t, i, k) ==
  IF k > Len(t) THEN (IF i > Len(t) THEN <<>> ELSE <<From(t, i)>>)
  ELSE IF t[k] = LF THEN <<SubSeq(t, i, k)>> \o SplitLines(t, k + 1, k + 1)
  ELSE SplitLines(t, i, k + 1)

IsBreak(c) == c = LF \/ c = CR
FinalBreak(t) == t # <<>> /\ IsBreak(t[Len(t)])
StripBreak(s) ==
  LET s1 == IF s # <<>> /\ s[Len(s)] = LF THEN Upto(s, Len(s) - 1) ELSE s
  IN IF s1 # <<>> /\ s1[Len(s1)] = CR THEN Upto(s1, Len(s1) - 1) ELSE s1

RECURSIVE Expand(_, _, _, _, _, _, _)
\* Tab stops are display columns counted from the start of the line.
\* col: columns so far; vis: position from which on characters are visible
\* (those of an escape sequence are not)
Expand(s, i, ts, out, tabs, col, vis) ==
  IF i > Len(s) THEN [s |-> out, tabs |-> tabs]
  ELSE LET v == IF s[i] = ESC /\ i >= vis THEN EscEnd(s, i) ELSE vis
       IN IF s[i] = TAB
          THEN LET n == ts - (col % ts) IN Expand(s, i + 1, ts, out \o Spaces(n), Append(tabs, col), col + n, v)
          ELSE Expand(s, i + 1, ts, Append(out, s[i]), tabs, IF i >= v THEN col + Width(s[i]) ELSE col, v)

ExpandTabs(s, ts) == IF Contains(s, TAB) THEN Expand(s, 1, ts, <<>>, <<>>, 0, 1) ELSE [s |-> s, tabs |-> <<>>]

\* removing: trailing blanks are part of the input, only the line break is not
ReadLines(t, ts, removing) ==
  LET raw == SplitLines(t, 1, 1)
  IN [i \in 1..Len(raw) |-> ExpandTabs(IF removing THEN StripBreak(raw[i]) ELSE TrimInput(raw[i]), ts)]

TextCols(lines) == MaxOf({Str(lines[i].s).cols : i \in 1..Len(lines)})
CommonIndent(lines) ==
  LET bs == [i \in 1..Len(lines) |-> Str(lines[i].s)]
      S  == {bs[i].ind : i \in {i \in 1..Len(lines) : bs[i].cols > 0}}
  IN IF S = {} THEN 0 ELSE MinOf(S)

Unindent(lines, n) ==
  [i \in 1..Len(lines) |->
     LET b == Str(lines[i].s) IN IF b.cols >= n THEN [lines[i] EXCEPT !.s = CutIndent(b, n)] ELSE lines[i]]

RECURSIVE ApplyRules(_, _)
\* all stages of a line under a list of rules, the original first
ApplyRules(rules, stages) ==
  IF rules = <<>> THEN stages
  ELSE ApplyRules(Tail(rules), Append(stages, ApplyRule(Head(rules), stages[Len(stages)])))

\* The text block is as wide as the widest line at any stage of replacement.
Substitute(blk, rules, textIndent) ==
  IF rules = <<>> THEN blk ELSE
  LET st  == [i \in 1..Len(blk.lines) |-> ApplyRules(rules, <<blk.lines[i].s>>)]
      ls  == [i \in 1..Len(blk.lines) |-> [blk.lines[i] EXCEPT !.s = st[i][Len(st[i])]]]
      mx  == MaxOf({MaxOf({Str(st[i][k]).cols : k \in 2..Len(st[i])}) : i \in 1..Len(st)})
  IN [blk EXCEPT !.lines = ls, !.maxline = Max2(blk.maxline, mx),
                 !.indent = IF textIndent THEN CommonIndent(ls) ELSE blk.indent]

\* Analysis of the lines read (removing: everything stays as it is).
Analyze(lines, final, removing, indentmode, rules) ==
  LET ind == CommonIndent(lines)
      mx  == TextCols(lines)
      cut == ~removing /\ indentmode # "t"
      blk == [ lines |-> IF cut /\ ind > 0 THEN Unindent(lines, ind) ELSE lines,
               indent |-> ind, maxline |-> IF cut THEN mx - ind ELSE mx, final |-> final ]
  IN IF removing THEN blk ELSE Substitute(blk, rules, indentmode = "t")

(***************************************************************************)
(* Indentation strings for the three tab modes.                            *)
(***************************************************************************)
RECURSIVE KeepTabs(_, _, _, _)
KeepTabs(tabs, n, ts, col) ==               \* from column col up to column n
  IF tabs = <<>> \/ Head(tabs) >= n THEN Spaces(n - col)
  ELSE LET stop == Head(tabs) + ts - (Head(tabs) % ts)
       IN IF stop > n THEN Spaces(n - col)
          ELSE Spaces(Head(tabs) - col) \o <<TAB>> \o KeepTabs(Tail(tabs), n, ts, stop)

IndentString(n, tabexp, ts, tabs) ==
  CASE tabexp = "e" -> Spaces(n)
    [] tabexp = "u" -> Rep(TAB, n \div ts) \o Spaces(n % ts)
    [] tabexp = "k" -> KeepTabs(tabs, n, ts, 0)
=============================================================================
