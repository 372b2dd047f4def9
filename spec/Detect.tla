------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* Autodetection: the design with most parts found in the text.            *)
(***************************************************************************)
EXTENDS Remove

\* Are all shapes to the left (right) of shape n blank in line j?
BlankWard(d, n, j, left) ==
  LET ns == IF Contains(North, n) THEN North ELSE <<"SW", "SSW", "S", "SSE", "SE">>
      p == CHOOSE i \in 1..5 : ns[i] = n
      others == IF left THEN 1..(p - 1) ELSE (p + 1)..5
  IN \A i \in others : Empty(d.sh[ns[i]]) \/ BlankStr(Vis(d.sh[ns[i]][j]))

TextLeft(b, way) ==                                   \* the line without its indentation
  IF IgnoreInput(way) THEN From(VisOf(b), b.ind + 1) ELSE From(b.m, Fpos(b, b.ind))
TextRight(b, way, n) ==                               \* its last n characters before trailing blanks
  LET s == IF IgnoreInput(way) THEN VisOf(b) ELSE b.m
      end == IF IgnoreInput(way) THEN NVis(b) - b.trl ELSE Fpos(b, NVis(b) - b.trl) - 1
  IN IF n > end THEN <<>> ELSE From(s, end - n + 1)

NonBlankShapeLines(d, n) == {j \in 1..d.h[n] : ~BlankStr(Vis(d.sh[n][j]))}
\* Lines of the text where line k of a top (bottom) shape n is looked for.
LineFor(d, n, k, num, bottom) == IF bottom THEN num - d.h[n] + k ELSE k
LinesFor(d, n, num, bottom) ==
  IF bottom /\ d.h[n] > num THEN {} ELSE {LineFor(d, n, k, num, bottom) : k \in 1..d.h[n]} \cap 1..num

CornerHits(d, bs, way, n) ==
  LET west == n \in {"NW", "SW"}
      bottom == n \in {"SW", "SE"}
  IN IF (west /\ d.empty[LEFT]) \/ (~west /\ d.empty[RIGHT]) \/ (bottom /\ d.empty[BOTTOM]) \/ (~bottom /\ d.empty[TOP])
     THEN 0
     ELSE Cardinality({x \in NonBlankShapeLines(d, n) \X LinesFor(d, n, Len(bs), bottom) :
            LET t == CompShape(d.sh[n][x[1]], way, west, ~west)
            IN StartsWith(IF west THEN TextLeft(bs[x[2]], way) ELSE TextRight(bs[x[2]], way, Len(t)), t)})

HorizontalHits(d, bs, way, n) ==
  IF d.empty[TOP] \/ d.empty[BOTTOM] \/ Empty(d.sh[n]) THEN 0
  ELSE Cardinality({x \in NonBlankShapeLines(d, n) \X LinesFor(d, n, Len(bs), n \in {"SSE", "S", "SSW"}) :
         LET t == CompShape(d.sh[n][x[1]], way, BlankWard(d, n, x[1], TRUE), BlankWard(d, n, x[1], FALSE))
             line == TextLeft(bs[x[2]], way)
             p == FirstOcc(line, t, 1)
         IN p # 0 /\ (n \in d.el => p + Len(t) <= Len(line) /\ AtPos(line, p + Len(t), t))})

BodyLines(d, num) ==
  LET t == IF d.empty[TOP] THEN 0 ELSE d.h["NW"]
      b == IF d.empty[BOTTOM] THEN 0 ELSE d.h["SW"]
  IN IF t + b >= num THEN {} ELSE (t + 1)..(num - b)
WestHits(d, bs, way, n) ==
  IF Empty(d.sh[n]) THEN 0
  ELSE Cardinality({i \in BodyLines(d, Len(bs)) : \E j \in NonBlankShapeLines(d, n) :
         StartsWith(TextLeft(bs[i], way), CompShape(d.sh[n][j], way, TRUE, FALSE))})
EastHits(d, bs, way, n) ==
  IF Empty(d.sh[n]) THEN 0
  ELSE Cardinality({j \in NonBlankShapeLines(d, n) : \E i \in BodyLines(d, Len(bs)) :
         LET t == CompShape(d.sh[n][j], way, TRUE, TRUE) IN StartsWith(TextRight(bs[i], way, Len(t)), t)})

Hits(d, bs, way) ==
  SumSeq([i \in 1..16 |->
    LET n == Clockwise[i]
    IN CASE n \in Corners -> CornerHits(d, bs, way, n)
         [] n \in {"NNW", "N", "NNE", "SSE", "S", "SSW"} -> HorizontalHits(d, bs, way, n)
         [] n \in {"WNW", "W", "WSW"} -> WestHits(d, bs, way, n)
         [] OTHER -> EastHits(d, bs, way, n)])

AllWays == <<"lit", "input", "shape", "all">>
Viable(d, bs, way) == Contains(Ways(InputMono(bs), DesignMono(d)), way)
\* The best of the designs when compared in one way, given the best so far <<hits, index>>.
DetectWay(ds, bs, way, best) ==
  FoldLeft(LAMBDA b, i : IF Viable(ds[i], bs, way)
                         THEN LET h == Hits(ds[i], bs, way) IN IF h > b[1] THEN <<h, i>> ELSE b
                         ELSE b, best, [i \in 1..Len(ds) |-> i])
RECURSIVE DetectFrom(_, _, _, _)
DetectFrom(ds, bs, k, best) ==
  IF k > 4 THEN best
  ELSE LET b == DetectWay(ds, bs, AllWays[k], best) IN IF b[1] > 2 THEN b ELSE DetectFrom(ds, bs, k + 1, b)
\* Index of the detected design, or 0.
Detected(ds, bs) == DetectFrom(ds, bs, 1, <<0, 0>>)[2]
=============================================================================
