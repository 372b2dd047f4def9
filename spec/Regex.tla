------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* The subset of regular expression replacement used by rules: a           *)
(* backtracking matcher given as the sequence of all possible matches in   *)
(* order of preference.  A match is <<end position, captures>>, where the  *)
(* captures are a function 1..9 -> string.                                 *)
(*                                                                         *)
(* Expressions: [t |-> "lit", c], [t |-> "any"], [t |-> "set", neg, r]     *)
(* (r: sequence of <<lo, hi>>), [t |-> "rep", e, min, max, greedy],        *)
(* [t |-> "cat", es], [t |-> "alt", es], [t |-> "grp", n, e], [t |-> "bol"],*)
(* [t |-> "eol"], [t |-> "not", e] (not followed by e).  Replacements: sequence of [t |-> "str", s] and          *)
(* [t |-> "ref", n].                                                       *)
(***************************************************************************)
EXTENDS Chars

NoCaps == [i \in 0..9 |-> <<>>]        \* 0: the whole match

One(e, c) == CASE e.t = "lit" -> c = e.c
               [] e.t = "any" -> c # LF
               [] e.t = "set" -> (\E i \in 1..Len(e.r) : e.r[i][1] <= c /\ c <= e.r[i][2]) # e.neg

RECURSIVE M(_, _, _, _)
RECURSIVE MSeq(_, _, _, _)
RECURSIVE MRep(_, _, _, _, _, _)
RECURSIVE MAlt(_, _, _, _)
RECURSIVE FlatMapCat(_, _, _)
RECURSIVE FlatMapRep(_, _, _, _, _)
M(e, s, i, caps) ==
  CASE e.t \in {"lit", "any", "set"} -> IF i <= Len(s) /\ One(e, s[i]) THEN << <<i + 1, caps>> >> ELSE <<>>
    [] e.t = "bol" -> IF i = 1 THEN << <<i, caps>> >> ELSE <<>>
    [] e.t = "eol" -> IF i = Len(s) + 1 THEN << <<i, caps>> >> ELSE <<>>
    [] e.t = "not" -> IF M(e.e, s, i, caps) = <<>> THEN << <<i, caps>> >> ELSE <<>>
    [] e.t = "cat" -> MSeq(e.es, s, i, caps)
    [] e.t = "alt" -> MAlt(e.es, s, i, caps)
    [] e.t = "rep" -> MRep(e, s, i, caps, 0, 0)
    [] e.t = "grp" -> LET r == M(e.e, s, i, caps)
                      IN [k \in 1..Len(r) |-> <<r[k][1], [r[k][2] EXCEPT ![e.n] = SubSeq(s, i, r[k][1] - 1)]>>]
MSeq(es, s, i, caps) ==
  IF es = <<>> THEN << <<i, caps>> >>
  ELSE FlatMapCat(M(Head(es), s, i, caps), Tail(es), s)
FlatMapCat(ms, es, s) ==
  IF ms = <<>> THEN <<>>
  ELSE MSeq(es, s, ms[1][1], ms[1][2]) \o FlatMapCat(Tail(ms), es, s)
MAlt(es, s, i, caps) == IF es = <<>> THEN <<>> ELSE M(Head(es), s, i, caps) \o MAlt(Tail(es), s, i, caps)
\* n: repetitions so far; from: position where the last repetition started
MRep(e, s, i, caps, n, from) ==
  LET stop == IF n >= e.min THEN << <<i, caps>> >> ELSE <<>>
      more == IF n < e.max /\ (n = 0 \/ i > from)
              THEN FlatMapRep(M(e.e, s, i, caps), e, s, n + 1, i) ELSE <<>>
  IN IF e.greedy THEN more \o stop ELSE stop \o more
FlatMapRep(ms, e, s, n, from) ==
  IF ms = <<>> THEN <<>>
  ELSE MRep(e, s, ms[1][1], ms[1][2], n, from) \o FlatMapRep(Tail(ms), e, s, n, from)

RECURSIVE Subst(_, _)
Subst(rep, caps) ==
  IF rep = <<>> THEN <<>>
  ELSE (IF Head(rep).t = "str" THEN Head(rep).s ELSE caps[Head(rep).n]) \o Subst(Tail(rep), caps)

\* Leftmost match from position i, all replaced (glob) or one only.
\* noempty: an empty match at i is not allowed (directly after another empty match)
RECURSIVE Replace(_, _, _, _, _, _)
Replace(e, rep, s, i, glob, noempty) ==
  IF i > Len(s) + 1 THEN <<>> ELSE
  LET ms0 == M(e, s, i, NoCaps)
      ms  == IF noempty THEN SelectSeq(ms0, LAMBDA x : x[1] > i) ELSE ms0
  IN IF ms = <<>>
     THEN (IF i <= Len(s) THEN <<s[i]>> ELSE <<>>) \o Replace(e, rep, s, i + 1, glob, FALSE)
     ELSE LET end == ms[1][1]
              txt == Subst(rep, [ms[1][2] EXCEPT ![0] = SubSeq(s, i, end - 1)])
          IN IF ~glob THEN txt \o From(s, end)
             ELSE txt \o Replace(e, rep, s, end, glob, end = i)

ApplyRule(rule, s) == Replace(rule.pat, rule.with, s, 1, rule.glob, FALSE)
=============================================================================
