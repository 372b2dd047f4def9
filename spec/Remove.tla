------------------------------- MODULE Remove -------------------------------
(***************************************************************************)
(* Removing: which lines are the top and the bottom of a box, what is the  *)
(* box at the left and right of the lines between them, and what remains.  *)
(*                                                                         *)
(* Text and design may be colored independently of each other, so there    *)
(* are four ways to compare them:                                          *)
(*   "lit"    both as they are                                             *)
(*   "input"  escape sequences in the text are ignored                     *)
(*   "shape"  escape sequences in the design are ignored                   *)
(*   "all"    both are ignored                                             *)
(***************************************************************************)
EXTENDS Draw

DesignMono(d) == \A n \in Names : Empty(d.sh[n]) \/ \A j \in 1..Len(d.sh[n]) : ~HasEsc(d.sh[n][j])
InputMono(bs) == \A i \in 1..Len(bs) : IsMono(bs[i])
Ways(inputMono, designMono) ==
  CASE inputMono /\ designMono -> <<"lit">>
    [] ~inputMono /\ designMono -> <<"input">>
    [] inputMono /\ ~designMono -> <<"shape">>
    [] OTHER -> <<"lit", "all">>
IgnoreInput(way) == way \in {"input", "all"}
IgnoreShape(way) == way \in {"shape", "all"}

Fpos(b, k) == b.f[Min2(k + 1, Len(b.f))]              \* where visible character k (from 0) starts
\* Line j of a shape as it is compared.
CompShape(s, way, trimLeft, trimRight) ==
  LET b == Str(s)
      lt == IF trimLeft THEN b.ind ELSE 0
  IN IF IgnoreShape(way) /\ ~IsMono(b)
     THEN LET v == From(VisOf(b), lt + 1)
          IN IF trimRight /\ b.trl > 0 THEN Upto(v, NVis(b) - lt - b.trl) ELSE v
     ELSE LET from == Fpos(b, lt)
          IN IF trimRight /\ b.trl > 0 THEN SubSeq(s, from, Fpos(b, NVis(b) - b.trl) - 1) ELSE From(s, from)
CompLine(b, way) == IF IgnoreInput(way) THEN VisOf(b) ELSE b.m

(******************************* searching ********************************)
AtPos(h, p, n) == p + Len(n) - 1 <= Len(h) /\ SubSeq(h, p, p + Len(n) - 1) = n
\* first occurrence of n in h at or after position from, or 0
RECURSIVE FirstOcc(_, _, _)
FirstOcc(h, n, from) ==
  IF n = <<>> THEN from
  ELSE IF from + Len(n) - 1 > Len(h) THEN 0
  ELSE IF AtPos(h, from, n) THEN from ELSE FirstOcc(h, n, from + 1)
RECURSIVE LastOccFrom(_, _, _)
LastOccFrom(h, n, p) == IF p < 1 THEN 0 ELSE IF AtPos(h, p, n) THEN p ELSE LastOccFrom(h, n, p - 1)
LastOcc(h, n) == IF n = <<>> THEN 1 ELSE LastOccFrom(h, n, Len(h) - Len(n) + 1)
BlankRange(h, p, q) == \A k \in p..(q - 1) : IsBlank(h[k])        \* positions p to q-1

\* Cut blanks from the ends of a shape line until it is shorter than q characters.
RECURSIVE CutEnds(_, _, _, _, _, _, _)
CutEnds(t, s, e, steps, pl, al, ar) ==                 \* what remains is t[s..e]
  IF steps = 0 THEN <<s, e>>
  ELSE LET left  == s <= e /\ IsBlank(t[s])
           right == s <= e /\ ar /\ IsBlank(t[e])
       IN IF pl /\ al THEN (IF left THEN CutEnds(t, s + 1, e, steps - 1, pl, al, ar)
                            ELSE IF right THEN CutEnds(t, s, e - 1, steps - 1, pl, al, ar) ELSE <<s, e>>)
          ELSE (IF right THEN CutEnds(t, s, e - 1, steps - 1, pl, al, ar)
                ELSE IF left /\ al THEN CutEnds(t, s + 1, e, steps - 1, pl, al, ar) ELSE <<s, e>>)
Shorten(t, q, pl, al, ar) ==
  LET r == CutEnds(t, 1, Len(t), Len(t) - q + 1, pl, al, ar)
      n == r[2] - r[1] + 1
  IN IF n < q THEN [ok |-> TRUE, s |-> SubSeq(t, r[1], r[2])] ELSE [ok |-> FALSE, s |-> <<>>]

(***************************************************************************)
(* Is a line of text line j of the top or bottom side?  It must consist of *)
(* the shapes of that side in their order, elastic ones repeated, with any *)
(* blanks between the corners and the text margin left out.                *)
(***************************************************************************)
\* the line as compared, with enough blanks at its end for blank corners
PreparedLine(b, way, n) ==
  LET c == Str(RTrim(CompLine(b, way)))
  IN [m |-> c.m \o Spaces(n), ind |-> c.ind, trl |-> c.trl + n, nv |-> NVis(c) + n,
      f |-> Upto(c.f, NVis(c)) \o [i \in 1..(n + 1) |-> Len(c.m) + i]]

NoMatch == [found |-> FALSE, p |-> 0, len |-> 0, shiftable |-> TRUE]
RECURSIVE OuterLeft(_, _, _)
OuterLeft(inp, t, k) ==                               \* t without its first k characters
  IF k > 0 /\ (k + 1 > Len(t) \/ ~IsBlank(t[k + 1])) THEN NoMatch
  ELSE LET p == FirstOcc(inp.m, From(t, k + 1), 1)
       IN IF p = 0 \/ p > inp.f[Min2(inp.ind + 1, Len(inp.f))] THEN OuterLeft(inp, t, k + 1)
          ELSE [found |-> TRUE, p |-> p, len |-> Len(t) - k, shiftable |-> FALSE]
RECURSIVE OuterRight(_, _, _)
OuterRight(inp, t, n) ==                              \* the first n characters of t
  IF n < Len(t) /\ ~IsBlank(t[n + 1]) THEN NoMatch
  ELSE LET p == LastOcc(inp.m, Upto(t, n))
       IN IF p = 0 \/ p + n < inp.f[inp.nv - inp.trl + 1] THEN OuterRight(inp, t, n - 1)
          ELSE [found |-> TRUE, p |-> p, len |-> n, shiftable |-> FALSE]
Outer(side, inp, shape) ==
  IF shape.empty \/ inp.m = <<>> \/ shape.text = <<>> THEN NoMatch
  ELSE IF BlankStr(Vis(shape.text))
       THEN [found |-> TRUE, p |-> IF side = LEFT THEN 1 ELSE inp.f[inp.nv + 1], len |-> 0, shiftable |-> TRUE]
  ELSE IF side = LEFT THEN OuterLeft(inp, shape.text, 0) ELSE OuterRight(inp, shape.text, Len(shape.text))

BlankShape(x) == x.empty \/ BlankStr(Vis(x.text))
NonBlankAfter(shapes, i) == \E k \in (i + 1)..4 : ~BlankShape(shapes[k])

\* Do shapes[i], shapes[i+1], ... (i = 2..5) make up m[cur..end-1]?  aL, aR: is the left (right) end fixed?
RECURSIVE Middle(_, _, _, _, _, _, _)
RECURSIVE MiddleTry(_, _, _, _, _, _, _)
RECURSIVE MiddleShift(_, _, _, _, _, _)
RECURSIVE MiddleShiftTry(_, _, _, _, _, _, _)
Middle(m, shapes, cur, i, end, aL, aR) ==
  IF ~aL THEN MiddleShift(m, shapes, cur, i, end, aR)
  ELSE IF cur > end THEN FALSE
  ELSE IF cur = end THEN (i = 5 /\ aR) \/ (BlankShape(shapes[i]) /\ ~NonBlankAfter(shapes, i))
  ELSE IF i >= 5 THEN BlankRange(m, cur, Len(m) + 1)
  ELSE IF shapes[i].empty THEN Middle(m, shapes, cur, i + 1, end, TRUE, aR)
  ELSE MiddleTry(m, shapes, cur, i, end, aR, shapes[i].text)
MiddleTry(m, shapes, cur, i, end, aR, t) ==
  IF t = <<>> THEN FALSE
  ELSE IF AtPos(m, cur, t)
       THEN LET nxt == cur + Len(t)
            IN \/ nxt = end /\ ~NonBlankAfter(shapes, i)
               \/ shapes[i].el /\ Middle(m, shapes, nxt, i, end, TRUE, aR)
               \/ Middle(m, shapes, nxt, i + 1, end, TRUE, aR)
  ELSE IF aR THEN FALSE
  ELSE LET s == Shorten(shapes[i].text, Len(t), FALSE, FALSE, TRUE)
       IN IF s.ok THEN MiddleTry(m, shapes, cur, i, end, aR, s.s) ELSE FALSE
MiddleShift(m, shapes, cur, i, end, aR) ==
  LET nb == {k \in i..4 : ~BlankShape(shapes[k])}
  IN IF nb = {} THEN BlankRange(m, cur, end)
     ELSE MiddleShiftTry(m, shapes, cur, MinOf(nb), end, aR, shapes[MinOf(nb)].text)
MiddleShiftTry(m, shapes, cur, i, end, aR, t) ==
  LET p == FirstOcc(m, t, cur)
  IN IF p # 0 /\ p < end /\ BlankRange(m, cur, p)
     THEN \/ Middle(m, shapes, p + Len(t), IF shapes[i].el THEN i ELSE i + 1, end, TRUE, aR)
          \/ shapes[i].el /\ Middle(m, shapes, p + Len(t), i + 1, end, TRUE, aR)
     ELSE LET s == Shorten(shapes[i].text, Len(t), FALSE, TRUE, ~NonBlankAfter(shapes, i) /\ BlankShape(shapes[5]))
          IN IF s.ok THEN MiddleShiftTry(m, shapes, cur, i, end, aR, s.s) ELSE FALSE

LeftToRight(side) == IF side = TOP THEN North ELSE <<"SW", "SSW", "S", "SSE", "SE">>
IsSideLine(d, b, way, side, j) ==
  LET ns == LeftToRight(side)
      shapes == [i \in 1..5 |->
                   LET n == ns[i]
                   IN [el |-> n \in d.el, empty |-> Empty(d.sh[n]),
                       text |-> IF Empty(d.sh[n]) THEN <<>> ELSE CompShape(d.sh[n][j], way, FALSE, i = 5)]]
      inp == PreparedLine(b, way, d.w["NW"] + d.w["NE"])
      l == IF d.empty[LEFT] THEN NoMatch ELSE Outer(LEFT, inp, shapes[1])
      r == IF d.empty[RIGHT] THEN NoMatch ELSE Outer(RIGHT, inp, shapes[5])
      cur == IF l.found THEN l.p + l.len ELSE 1
      end == IF r.found THEN r.p ELSE inp.f[inp.nv + 1]
  IN Middle(inp.m, shapes, cur, 2, end, l.found /\ ~l.shiftable, r.found /\ ~r.shiftable)
IsSideLineAny(d, b, ways, side, j) == \E k \in 1..Len(ways) : IsSideLine(d, b, ways[k], side, j)

NonBlankLines(bs) == {i \in 1..Len(bs) : ~BlankB(bs[i])}
\* Is line i (which is k lines from the first nonblank line) part of the top side?
TopLineMatches(d, bs, ways, i, k) == \E j \in 1..d.h["NE"] : IsSideLineAny(d, bs[i], ways, TOP, j)
BottomLineMatches(d, bs, ways, i) == \E j \in 1..d.h["SE"] : IsSideLineAny(d, bs[i], ways, BOTTOM, j)

(***************************************************************************)
(* The lines between top and bottom: the longest part of a vertical shape  *)
(* at the left and right end of each of them.                              *)
(***************************************************************************)
NoEdge == [s |-> 0, e |-> 0, q |-> 0]                 \* covers positions s+1..e, quality q
SideLines(d, side, way) ==
  LET ns == IF side = LEFT THEN <<"WNW", "W", "WSW">> ELSE <<"ENE", "E", "ESE">>
      lines(n) == IF DeepEmpty(d.sh[n]) THEN <<>>
                  ELSE [j \in 1..d.h[n] |-> CompShape(d.sh[n][j], way, FALSE, FALSE)]
  IN lines(ns[1]) \o lines(ns[2]) \o lines(ns[3])

RECURSIVE EdgeTry(_, _, _, _, _, _)
\* t: full shape line, u: what is left of it after shortening
EdgeTry(side, line, ind, trl, t, u) ==
  LET p0  == IF side = LEFT THEN FirstOcc(line, u, 1) ELSE LastOcc(line, u)
      p   == p0 - 1
      bad == \/ p0 = 0
             \/ side = LEFT /\ p > ind
             \/ side = RIGHT /\ (Len(line) - trl < Len(u) \/ p < Len(line) - trl - Len(u))
  IN IF bad THEN LET s == Shorten(t, Len(u), side = LEFT, TRUE, TRUE)
                 IN IF s.ok THEN EdgeTry(side, line, ind, trl, t, s.s) ELSE NoEdge
     ELSE [s |-> p, e |-> p + Len(u), q |-> Len(u)]
Edge(side, b, way, shapeLines) ==
  LET line == CompLine(b, way)
      ind == IF IgnoreInput(way) THEN b.ind ELSE Fpos(b, b.ind) - 1
      trl == IF IgnoreInput(way) THEN b.trl ELSE Len(b.m) - (Fpos(b, NVis(b) - b.trl) - 1)
  IN FoldLeft(LAMBDA best, t : LET e == EdgeTry(side, line, ind, trl, t, t) IN IF e.q > best.q THEN e ELSE best,
              NoEdge, shapeLines)

\* All edges of lines from..to, compared in one way.
Edges(d, bs, from, to, way) ==
  LET wl == IF d.empty[LEFT] THEN <<>> ELSE SideLines(d, LEFT, way)
      el == IF d.empty[RIGHT] THEN <<>> ELSE SideLines(d, RIGHT, way)
  IN [k \in 1..(to - from + 1) |->
        [west |-> Edge(LEFT, bs[from + k - 1], way, wl), east |-> Edge(RIGHT, bs[from + k - 1], way, el)]]
Sufficient(d, es) ==
  LET total == SumSeq([k \in 1..Len(es) |-> es[k].west.q + es[k].east.q])
      most == ((IF d.empty[LEFT] THEN 0 ELSE d.w["NW"]) + (IF d.empty[RIGHT] THEN 0 ELSE d.w["NE"])) * Len(es)
  IN (most = 0 /\ total = 0) \/ (most > 0 /\ 2 * total > most)

\* What remains of a line, without the box and the padding at its left.
RECURSIVE PaddingCols(_, _, _, _)
PaddingCols(s, i, n, acc) == IF n = 0 \/ i > Len(s) \/ ~IsBlank(s[i]) THEN acc ELSE PaddingCols(s, i + 1, n - 1, acc + 1)
StripLine(d, b, way, e) ==
  LET line == CompLine(b, way)
      s0 == IF e.west.q > 0 THEN e.west.e + PaddingCols(line, e.west.e + 1, Max2(0, d.pad[LEFT]), 0) ELSE 0
      e0 == IF e.east.q > 0 THEN e.east.s ELSE Len(line)
      s == IF IgnoreInput(way) THEN Fpos(b, s0) - 1 ELSE s0
      t == IF IgnoreInput(way) THEN Fpos(b, e0) - 1 ELSE e0
  IN SubSeq(b.m, s + 1, Max2(s, t))

(***************************************************************************)
(* The text that remains.                                                  *)
(***************************************************************************)
RECURSIVE BlankLead(_, _, _, _)
\* number of blank lines from line i on, in steps of dir, up to limit, not beyond line last
BlankLead(bs, i, last, dir) ==
  IF (dir = 1 /\ i > last) \/ (dir = -1 /\ i < last) \/ ~BlankB(bs[i]) THEN 0 ELSE 1 + BlankLead(bs, i + dir, last, dir)

Remaining(blk, lines) ==
  LET bs == [i \in 1..Len(lines) |-> Str(lines[i].s)]
  IN [blk EXCEPT !.lines = lines, !.maxline = MaxOf({bs[i].cols : i \in 1..Len(bs)}),
                 !.indent = LET solid == {i \in 1..Len(bs) : ~BlankB(bs[i])}
                            IN IF solid = {} THEN 0 ELSE MinOf({bs[i].ind : i \in solid})]

Revert(d, blk) ==
  LET ls == [i \in 1..Len(blk.lines) |->
               [blk.lines[i] EXCEPT !.s = LET st == ApplyRules(d.rev, <<@>>) IN st[Len(st)]]]
      b1 == [blk EXCEPT !.lines = ls]
  IN IF d.indent = "t" THEN [b1 EXCEPT !.indent = CommonIndent(ls)] ELSE b1

\* One line of the remaining text as it is printed.
RemainingLine(blk, o, i) ==
  LET s == RTrim(blk.lines[i].s)
      b == Str(s)
      n == CASE o.tabexp = "u" -> b.ind [] o.tabexp = "k" -> Min2(blk.indent, b.ind) [] OTHER -> 0
      ind == IF o.tabexp = "e" THEN <<>> ELSE IndentString(n, o.tabexp, o.tabstop, blk.lines[i].tabs)
  IN ind \o Emit(CutIndent(b, n), o.color)
=============================================================================
