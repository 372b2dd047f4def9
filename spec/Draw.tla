-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* Drawing: how large the box becomes, which shapes go where, and where    *)
(* the text goes.                                                          *)
(*                                                                         *)
(* Options (record o): halign l/c/r, valign t/c/b, justify ""/l/c/r,       *)
(* pad <<t,r,b,l>> (-1: from the design), reqw, reqh (0: not requested),   *)
(* indentmode ""/b/t/n, tabexp e/u/k, tabstop, eol, color, killblank.      *)
(***************************************************************************)
EXTENDS Design, Input

\* Minimum size and indentation mode once the command line is known.
ApplyOptions(d, o) ==
  [d EXCEPT
     !.minw = Max2(d.minw, o.reqw)
              + (IF o.reqw > 0 /\ d.empty[RIGHT] THEN d.w["SE"] ELSE 0)
              + (IF o.reqw > 0 /\ d.empty[LEFT] THEN d.w["NW"] ELSE 0),
     !.minh = Max2(d.minh, o.reqh)
              + (IF o.reqh > 0 /\ d.empty[TOP] THEN d.h["NW"] ELSE 0)
              + (IF o.reqh > 0 /\ d.empty[BOTTOM] THEN d.h["SE"] ELSE 0),
     !.indent = IF o.indentmode = "" THEN d.indent ELSE o.indentmode ]

PaddingInEffect(d, o) == [i \in 1..4 |-> IF o.pad[i] > -1 THEN o.pad[i] ELSE d.pad[i]]

RECURSIVE Reduce(_, _, _)
\* take n units from the pair <<first, second>>, in turns, starting with the first
Reduce(pair, n, i) ==
  IF n = 0 \/ pair = <<0, 0>> THEN pair
  ELSE LET pref == IF i % 2 = 0 THEN 1 ELSE 2
           k    == IF pair[pref] > 0 THEN pref ELSE 3 - pref
       IN Reduce([pair EXCEPT ![k] = @ - 1], n - 1, i + 1)

\* Fit padding and size: padding enlarges the box, unless a size was requested.
Fit(d, o, blk) ==
  LET p    == PaddingInEffect(d, o)
      vp   == p[TOP] + p[BOTTOM]
      vneed == vp + Len(blk.lines) + d.h["NW"] + d.h["SW"]
      vover == vp > 0 /\ vneed > d.minh
      vr   == IF vover /\ o.reqh > 0 THEN Reduce(<<p[TOP], p[BOTTOM]>>, vneed - d.minh, 0) ELSE <<p[TOP], p[BOTTOM]>>
      hp   == p[LEFT] + p[RIGHT]
      hneed == hp + blk.maxline + d.w["NW"] + d.w["NE"]
      hover == hp > 0 /\ hneed > d.minw
      hr   == IF hover /\ o.reqw > 0 THEN Reduce(<<p[LEFT], p[RIGHT]>>, hneed - d.minw, 0) ELSE <<p[LEFT], p[RIGHT]>>
  IN [d EXCEPT !.pad = <<vr[1], hr[2], vr[2], hr[1]>>,
               !.minh = IF vover /\ o.reqh = 0 THEN vneed ELSE d.minh,
               !.minw = IF hover /\ o.reqw = 0 THEN hneed ELSE d.minw]

TargetWidth(d, blk) == Max2(blk.maxline, d.minw - d.w["NW"] - d.w["NE"])
TargetHeight(d, blk) == Max2(Len(blk.lines), d.minh - d.h["NW"] - d.h["SW"])

(***************************************************************************)
(* Advancing two opposite sides until they are equally long.               *)
(* state: a, b  <<n1, n2, n3>> columns (lines) given to the middle shapes  *)
(*        ta, tb which of two elastic shapes is next                       *)
(***************************************************************************)
PcInit == [a |-> <<0,0,0>>, b |-> <<0,0,0>>, ta |-> 1, tb |-> 1]
MidShapes(d, side) ==
  [i \in 1..3 |-> LET n == SideOf[side][i + 1]
                  IN [sz |-> IF Horizontal(side) THEN d.w[n] ELSE d.h[n],
                      el |-> n \in d.el, ex |-> ~Empty(d.sh[n])]]
Total(v) == v[1] + v[2] + v[3]

RECURSIVE AddNonElastic(_, _, _, _)
AddNonElastic(ms, v, i, once) ==
  IF i > 3 THEN v
  ELSE IF ms[i].ex /\ ~ms[i].el /\ v[i] = 0
       THEN LET v2 == [v EXCEPT ![i] = ms[i].sz] IN IF once THEN v2 ELSE AddNonElastic(ms, v2, i + 1, once)
       ELSE AddNonElastic(ms, v, i + 1, once)

\* One step on one side: v its amounts, tog its toggle, other the length of the other side.
AdvanceSide(ms, v, tog, other, target) ==
  LET num == Cardinality({i \in 1..3 : ms[i].ex})
      wants(w, i) == w[i] = 0 \/ Total(w) < target \/ Total(w) # other
      add(w, i) == IF wants(w, i) THEN [w EXCEPT ![i] = @ + ms[i].sz] ELSE w
  IN CASE num = 1 -> LET i == CHOOSE i \in 1..3 : ms[i].ex IN <<add(v, i), tog>>
       [] num = 2 -> LET v1 == AddNonElastic(ms, v, 1, TRUE)
                         i  == MinOf({i \in 1..3 : ms[i].ex /\ ms[i].el})
                     IN <<add(v1, i), tog>>
       [] num = 3 -> LET v1 == AddNonElastic(ms, v, 1, FALSE)
                     IN IF ms[1].el /\ ms[3].el THEN <<add(v1, tog), 4 - tog>>
                        ELSE <<add(v1, MinOf({i \in 1..3 : ms[i].el})), tog>>

PcStep(msa, msb, p, target) ==
  IF Total(p.a) > Total(p.b)
  THEN LET r == AdvanceSide(msb, p.b, p.tb, Total(p.a), target) IN [p EXCEPT !.b = r[1], !.tb = r[2]]
  ELSE LET r == AdvanceSide(msa, p.a, p.ta, Total(p.b), target) IN [p EXCEPT !.a = r[1], !.ta = r[2]]
PcDone(p, target) == Total(p.a) = Total(p.b) /\ Total(p.a) >= target
\* Situations repeat once the target is reached, so this many steps are enough if it is possible at all.
PcLimit(msa, msb, target) ==
  2 * target + 8 * (SumSeq([i \in 1..3 |-> msa[i].sz + msb[i].sz]) + 1)

(***************************************************************************)
(* Putting the parts together.                                             *)
(***************************************************************************)
\* line j of the top (bottom) part, without corners; v: columns per middle shape in side order
HorizLine(d, side, v, j) ==
  LET order == IF side = TOP THEN <<1,2,3>> ELSE <<3,2,1>>
      part(i) == LET n == SideOf[side][i + 1]
                 IN IF v[i] = 0 THEN <<>> ELSE RepeatSeq(d.sh[n][j], v[i] \div d.w[n])
  IN part(order[1]) \o part(order[2]) \o part(order[3])

\* all lines of the left (right) part, with corners, top to bottom
VertLines(d, side, v) ==
  LET order == IF side = RIGHT THEN <<1,2,3>> ELSE <<3,2,1>>
      top   == IF side = RIGHT THEN "NE" ELSE "NW"
      bot   == IF side = RIGHT THEN "SE" ELSE "SW"
      part(i) == LET n == SideOf[side][i + 1]
                 IN [k \in 1..v[i] |-> d.sh[n][((k - 1) % d.h[n]) + 1]]
  IN d.sh[top] \o part(order[1]) \o part(order[2]) \o part(order[3]) \o d.sh[bot]

\* Box parts: top/bottom without corners, left/right with corners.
Assemble(d, hv, vv) ==
  LET th == MaxOf({d.h[n] : n \in SetOf(North)})
      bh == MaxOf({d.h[n] : n \in SetOf(South)})
  IN [ top |-> [j \in 1..th |-> HorizLine(d, TOP, hv.a, j)],
       bottom |-> [j \in 1..bh |-> HorizLine(d, BOTTOM, hv.b, j)],
       left |-> VertLines(d, LEFT, vv.a), right |-> VertLines(d, RIGHT, vv.b),
       width |-> Total(hv.a) ]

\* How far a line moves to the right (negative: left) by justification.
Shift(d, o, blk, line, skew) ==
  LET b == Str(line.s)
      len == b.cols - b.ind
      text == d.indent = "t"
      half(n, sk) == (n \div 2) + (IF n % 2 = 1 /\ sk = 1 THEN 1 ELSE 0)
  IN IF BlankB(b) THEN 0
     ELSE CASE o.justify = "" -> 0
            [] o.justify = "l" -> IF text THEN blk.indent - b.ind ELSE -b.ind
            [] o.justify = "c" -> (IF text THEN half(blk.maxline - blk.indent - len, skew - blk.indent) + blk.indent
                                   ELSE half(blk.maxline - len, skew)) - b.ind
            [] o.justify = "r" -> blk.maxline - len - b.ind

\* Rows above and below the text, columns to its left and right.
VFill(d, o, blk, box) ==
  LET free == Len(box.right) - Len(box.top) - Len(box.bottom) - Len(blk.lines) - d.pad[TOP] - d.pad[BOTTOM]
      up   == CASE o.valign = "c" -> free \div 2 [] o.valign = "b" -> free [] OTHER -> 0
  IN <<up + d.pad[TOP], free - up + d.pad[BOTTOM]>>
HFill(d, o, blk, box) ==
  LET total == box.width - blk.maxline
      free == total - d.pad[LEFT] - d.pad[RIGHT]
      lft  == CASE o.halign = "c" -> free \div 2 [] o.halign = "r" -> free [] OTHER -> 0
  IN <<lft + d.pad[LEFT], free - lft + d.pad[RIGHT]>>

\* Index (from 1) of the text line shown in row j, or 0; rows are counted without skipping.
TextRow(box, blk, vf, j) ==
  LET t == j - Len(box.top) - vf[1] IN IF t >= 1 /\ t <= Len(blk.lines) THEN t ELSE 0

RowString(d, o, blk, box, j) ==
  LET vf == VFill(d, o, blk, box)
      hf == HFill(d, o, blk, box)
      n  == Len(box.right)
      t  == TextRow(box, blk, vf, j)
      src == IF t > 0 THEN t ELSE IF j <= Len(box.top) + vf[1] THEN 1 ELSE Len(blk.lines)
      ind == IF d.indent = "b" THEN IndentString(blk.indent, o.tabexp, o.tabstop, blk.lines[src].tabs) ELSE <<>>
      lft == IF d.empty[LEFT] THEN <<>> ELSE box.left[j]
      mid == IF j <= Len(box.top) THEN box.top[j]
             ELSE IF j > n - Len(box.bottom) THEN box.bottom[j - (n - Len(box.bottom))]
             ELSE IF t = 0 THEN Spaces(box.width)
             ELSE LET line == blk.lines[t]
                      sh == Shift(d, o, blk, line, hf[2] - hf[1])
                      tx == CutIndent(Str(line.s), IF sh < 0 THEN -sh ELSE 0)
                  IN Spaces(hf[1]) \o Spaces(IF sh > 0 THEN sh ELSE 0) \o tx
                     \o Spaces(hf[2]) \o Spaces(blk.maxline - Str(line.s).cols - sh)
  IN RTrim(ind \o lft \o mid \o box.right[j])

FirstRow(d) == IF d.empty[TOP] THEN d.h["NW"] + 1 ELSE 1
LastRow(d, box) == Len(box.right) - (IF d.empty[BOTTOM] THEN d.h["SW"] ELSE 0)

Emit(s, color) == IF color THEN s ELSE Vis(s)
=============================================================================
