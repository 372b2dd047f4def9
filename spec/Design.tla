------------------------------ MODULE Design ------------------------------
(***************************************************************************)
(* Box designs: sixteen shapes around a rectangle, which of them are       *)
(* elastic, and how a design is completed and checked when it is read.     *)
(*                                                                         *)
(* The shapes of a design are a record: shape name -> sequence of lines    *)
(* (<<>> if there is no such shape).                                       *)
(***************************************************************************)
EXTENDS Chars, FiniteSets

Clockwise == <<"NW","NNW","N","NNE","NE","ENE","E","ESE","SE","SSE","S","SSW","SW","WSW","W","WNW">>
Names == SetOf(Clockwise)
North == <<"NW","NNW","N","NNE","NE">>
East  == <<"NE","ENE","E","ESE","SE">>
South == <<"SE","SSE","S","SSW","SW">>
West  == <<"SW","WSW","W","WNW","NW">>
SideOf == <<North, East, South, West>>      \* TOP, RIGHT, BOTTOM, LEFT
TOP == 1
RIGHT == 2
BOTTOM == 3
LEFT == 4
Corners == {"NW","NE","SE","SW"}
Horizontal(side) == side = TOP \/ side = BOTTOM

ShapeW(lines) == IF lines = <<>> THEN 0 ELSE Cols(Vis(lines[1]))
ShapeH(lines) == Len(lines)
Empty(lines) == lines = <<>> \/ ShapeW(lines) = 0
Blank(w, h) == [i \in 1..h |-> Spaces(w)]
DeepEmpty(lines) == Empty(lines) \/ \A i \in 1..Len(lines) : \A k \in 1..Len(lines[i]) :
                       LET v == Vis(lines[i]) IN \A q \in 1..Len(v) : IsBlank(v[q])

FirstGiven(sh, names) ==                    \* first non-empty shape of a sequence of names, or "none"
  LET idx == {i \in 1..Len(names) : ~Empty(sh[names[i]])}
  IN IF idx = {} THEN "none" ELSE names[MinOf(idx)]
FirstSideOf(n) == MinOf({s \in 1..4 : Contains(SideOf[s], n)})

(***************************************************************************)
(* Completion: corners that are not given are generated as blanks, taking  *)
(* their size from the neighbouring shapes, going round the box clockwise  *)
(* from the side of the first shape given; then each side without shapes   *)
(* gets a blank elastic shape in its middle.                               *)
(***************************************************************************)
RECURSIVE AddCorners(_, _, _, _)
AddCorners(sh, side, prev, k) ==            \* prev: shape that gives the size along the way
  IF k = 0 THEN sh ELSE
  LET cn   == SideOf[side][5]
      nxt  == SideOf[(side % 4) + 1]
      ref  == FirstGiven(sh, SubSeq(nxt, 2, 5))
      sh2  == IF ~Empty(sh[cn]) THEN sh
              ELSE IF Horizontal(side)
                   THEN [sh EXCEPT ![cn] = Blank(IF ref = "none" THEN 1 ELSE ShapeW(sh[ref]), ShapeH(sh[prev]))]
                   ELSE [sh EXCEPT ![cn] = Blank(ShapeW(sh[prev]), IF ref = "none" THEN 1 ELSE ShapeH(sh[ref]))]
  IN AddCorners(sh2, (side % 4) + 1, cn, k - 1)

SideGiven(sh, side) == \E i \in 2..4 : ~Empty(sh[SideOf[side][i]])
AddMiddles(sh) ==
  [n \in Names |->
     IF \E s \in 1..4 : SideOf[s][3] = n /\ ~SideGiven(sh, s)
     THEN LET s == CHOOSE s \in 1..4 : SideOf[s][3] = n
              c == sh[SideOf[s][1]]
          IN IF Horizontal(s) THEN Blank(1, ShapeH(c)) ELSE Blank(ShapeW(c), 1)
     ELSE sh[n]]
GeneratedMiddles(sh) == {SideOf[s][3] : s \in {s \in 1..4 : ~SideGiven(sh, s)}}

SizesAgree(sh) ==
  \A s \in 1..4 : \A a, b \in SetOf(SideOf[s]) :
     IF Horizontal(s) THEN ShapeH(sh[a]) > 0 /\ ShapeH(sh[b]) > 0 => ShapeH(sh[a]) = ShapeH(sh[b])
     ELSE ShapeW(sh[a]) > 0 /\ ShapeW(sh[b]) > 0 => ShapeW(sh[a]) = ShapeW(sh[b])

ElasticOK(sh, el) ==
  /\ \A n \in el : ~Empty(sh[n])
  /\ el \cap Corners = {}
  /\ \A s \in 1..4 : Cardinality({i \in 2..4 : SideOf[s][i] \in el}) \in {1, 2}
  /\ \A s \in 1..4 :
       LET mid == SelectSeq(SubSeq(SideOf[s], 2, 4), LAMBDA n : ~Empty(sh[n]))
       IN \A i \in 1..(Len(mid) - 1) : ~(mid[i] \in el /\ mid[i+1] \in el)

SumOver(sh, side) ==
  LET S == SideOf[side]
  IN IF Horizontal(side) THEN SumSeq([i \in 1..5 |-> ShapeW(sh[S[i]])])
     ELSE SumSeq([i \in 1..5 |-> IF Empty(sh[S[i]]) THEN 0 ELSE ShapeH(sh[S[i]])])

EmptySide(sh, side) == \A i \in 1..5 : DeepEmpty(sh[SideOf[side][i]])

\* All shapes of a design whose given shapes are sh, and its elastic shapes.
CompleteShapes(sh0, el0) ==
  LET first == FirstGiven(sh0, Clockwise)
      sh1 == AddCorners(sh0, FirstSideOf(first), first, 4)
      sh  == AddMiddles(sh1)
  IN IF ~SizesAgree(sh) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, sh |-> sh, el |-> el0 \cup GeneratedMiddles(sh1)]
MinWidth(sh) == Max2(SumOver(sh, TOP), SumOver(sh, BOTTOM))
MinHeight(sh) == Max2(SumOver(sh, LEFT), SumOver(sh, RIGHT))
NoShapes == [n \in Names |-> <<>>]
=============================================================================
