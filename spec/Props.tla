------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties, stated about states of the machine in Boxes and in      *)
(* terms of what can be seen: the input text, the design, the options and  *)
(* the output.  They do not use the operators with which Boxes computes    *)
(* the output, except as witnesses for existentially quantified values     *)
(* (the inner size of the box, and the padding that was left).             *)
(* They are checked as invariants, exhaustively for the worlds in MC, and  *)
(* for the worlds which are recorded from the real program (Trace).        *)
(***************************************************************************)
EXTENDS Boxes, Claims

Abs(x) == IF x < 0 THEN -x ELSE x

(***************************************************************************)
(* Cells: a row of the screen.  Wide characters take two cells, the second *)
(* one being 0; those without a width take none; escape sequences vanish.  *)
(***************************************************************************)
Cells(s) ==
  FoldLeft(LAMBDA acc, c : CASE Width(c) = 0 -> acc
                             [] IsBlank(c) -> acc \o Spaces(Width(c))
                             [] Width(c) = 2 -> acc \o <<c, 0>>
                             [] OTHER -> Append(acc, c), <<>>, Vis(s))
PadTo(cs, n) == IF Len(cs) >= n THEN cs ELSE cs \o Spaces(n - Len(cs))
Part(cs, from, n) == SubSeq(PadTo(cs, from + n - 1), from, from + n - 1)     \* n cells starting at from
Leading(cs) == LET nb == {i \in 1..Len(cs) : cs[i] # SP} IN IF nb = {} THEN Len(cs) ELSE MinOf(nb) - 1

(***************************************************************************)
(* What is looked at, once a box has been drawn:                           *)
(*   rows   rows of the output          cells  their cells                 *)
(*   lines  rows of the input           text   their cells                 *)
(*   common, widest  indentation of the input, columns of its widest line  *)
(*   sh     cells of the shapes                                            *)
(*   left, right, top, bottom  size of the sides which are there           *)
(*   ind    columns in front of the box  inner  columns inside of it       *)
(*   height rows inside of it                                              *)
(*   block  width of the block of text   pads   the padding that was left  *)
(***************************************************************************)
D == job.d
Raw == Designs[job.design]
Solid(cs) == \E i \in 1..Len(cs) : cs[i] # SP
\* rows of the output, whatever the line terminator is
OutRows == RowsOf(IF O.eol = <<CR>> THEN [i \in 1..Len(out) |-> IF out[i] = CR THEN LF ELSE out[i]] ELSE out)
InLines == ReadLines(InputText, O.tabstop, FALSE)
Seen ==
  LET rows == OutRows
      cells == [i \in 1..Len(rows) |-> Cells(ExpandTabs(rows[i], O.tabstop).s)]
      lines == InLines
      text == [i \in 1..Len(lines) |-> Cells(lines[i].s)]
      solid == {i \in 1..Len(text) : Solid(text[i])}
      common == IF solid = {} THEN 0 ELSE MinOf({Leading(text[i]) : i \in solid})
      widest == MaxOf({Len(text[i]) : i \in 1..Len(text)})
      top == IF D.empty[TOP] THEN 0 ELSE D.h["NW"]
      bottom == IF D.empty[BOTTOM] THEN 0 ELSE D.h["SW"]
  IN [ rows |-> rows, cells |-> cells, lines |-> lines, text |-> text, common |-> common, widest |-> widest,
       sh |-> [n \in Names |-> [j \in 1..Len(D.sh[n]) |-> Cells(D.sh[n][j])]],
       left |-> IF D.empty[LEFT] THEN 0 ELSE D.w["NW"], right |-> D.w["NE"], top |-> top, bottom |-> bottom,
       ind |-> IF D.indent = "b" THEN job.blk.indent ELSE 0, inner |-> Total(job.hv.a),
       height |-> Len(rows) - top - bottom,
       block |-> widest - (IF D.indent = "t" THEN 0 ELSE common), pads |-> job.fd.pad ]
Body(v) == (v.top + 1)..(v.top + v.height)
Inside(v, j) == Part(v.cells[j], v.ind + v.left + 1, v.inner)

\* The predicates about drawing apply when a box has been drawn completely.
Drawn == pc = "emit" /\ ~job.removing /\ job.row > job.last
\* Not meant: tabs in shapes, carriage returns inside a line, substitution of characters,
\* strings in which an escape sequence is not complete.
Whole(s) == \A i \in 1..Len(s) : s[i] = ESC => LET e == EscEnd(s, i) IN e > i + 1 /\ (e > i + 2 => e <= Len(s) + 1 /\ IsFinal(s[e - 1]))
Clean ==
  /\ Encoding = S("UTF-8")
  /\ LET ls == InLines IN \A i \in 1..Len(ls) : ~Contains(ls[i].s, CR) /\ Whole(ls[i].s)
  /\ LET sh == D.sh IN \A n \in Names : \A j \in 1..Len(sh[n]) : ~Contains(sh[n][j], TAB) /\ Whole(sh[n][j])
FromInput == ~O.mend /\ D.rep = <<>>

(****************************** C01, C05, C06 ******************************)
SpaceH(v) == v.inner - v.block - v.pads[LEFT] - v.pads[RIGHT]
SpaceV(v) == v.height - Len(v.lines) - v.pads[TOP] - v.pads[BOTTOM]
BlockX(v) == v.pads[LEFT] + (CASE O.halign = "l" -> 0 [] O.halign = "c" -> SpaceH(v) \div 2 [] O.halign = "r" -> SpaceH(v))
BlockY(v) == v.pads[TOP] + (CASE O.valign = "t" -> 0 [] O.valign = "c" -> SpaceV(v) \div 2 [] O.valign = "b" -> SpaceV(v))

C01_LinesKept ==
  Drawn /\ Clean /\ FromInput =>
    LET v == Seen
        want == [i \in 1..Len(v.text) |-> Trim(v.text[i])]
        have == [j \in 1..v.height |-> Trim(Inside(v, v.top + j))]
    IN \E k \in 0..(v.height - Len(want)) :
         \A j \in 1..v.height : have[j] = (IF j - k \in 1..Len(want) THEN want[j - k] ELSE <<>>)

C05_Alignment ==
  Drawn /\ Clean /\ FromInput =>
    LET v == Seen
        x0 == BlockX(v)
        y0 == BlockY(v)
        base == IF D.indent = "t" THEN v.common ELSE 0
    IN \A i \in 1..Len(v.text) :
         Solid(v.text[i]) =>
           LET row == Inside(v, v.top + y0 + i)
               x   == Leading(row) - x0
               len == Len(v.text[i]) - Leading(v.text[i])
               room == v.block - base - len
           IN CASE O.justify = "" -> x = Leading(v.text[i]) - (v.widest - v.block)
                [] O.justify = "l" -> x = base
                [] O.justify = "r" -> x = v.block - len
                [] O.justify = "c" -> 2 * (x - base) \in (room - 1)..(room + 1)

C06_Indentation ==
  Drawn /\ Clean /\ FromInput =>
    LET v == Seen
    IN /\ D.indent = (IF O.indentmode # "" THEN O.indentmode ELSE Raw.indent)
       /\ D.indent = "b" => v.ind = v.common
       /\ \A j \in 1..Len(v.cells) : \A k \in 1..Min2(v.ind, Len(v.cells[j])) : v.cells[j][k] = SP

(********************************** C02 ************************************)
\* How many rows (columns) each of three side shapes may take.
Shares(n, size, total) ==
  IF Empty(D.sh[n]) THEN {0} ELSE IF n \notin D.el THEN {size} ELSE {x \in size..total : TRUE}
Thirds(ns, size(_), total) ==
  {<<a, b, total - a - b>> : a \in Shares(ns[1], size(ns[1]), total), b \in Shares(ns[2], size(ns[2]), total)}
FitsIn(ns, size(_), total) ==
  {t \in Thirds(ns, size, total) : t[3] >= 0 /\ t[3] \in Shares(ns[3], size(ns[3]), total)}
Third(t, x) == IF x <= t[1] THEN 1 ELSE IF x <= t[1] + t[2] THEN 2 ELSE 3
Offset(t, x) == x - (CASE x <= t[1] -> 0 [] x > t[1] /\ x <= t[1] + t[2] -> t[1] [] OTHER -> t[1] + t[2])
\* cells of a horizontal side of w cells
HorizOK(v, rows, ns, w) ==
  \E t \in FitsIn(ns, LAMBDA n : D.w[n], w) :
    /\ \A k \in 1..3 : t[k] = 0 \/ t[k] % D.w[ns[k]] = 0
    /\ \A x \in 1..w : LET n == ns[Third(t, x)]
                           o == ((Offset(t, x) - 1) % D.w[n]) + 1
                       IN \A j \in 1..Len(rows) : rows[j][x] = v.sh[n][j][o]
VertOK(v, col, ns) ==
  \E t \in FitsIn(ns, LAMBDA n : D.h[n], Len(col)) :
    \A y \in 1..Len(col) : LET n == ns[Third(t, y)] IN col[y] = v.sh[n][((Offset(t, y) - 1) % D.h[n]) + 1]
CornerOK(v, n, x, y) == \A j \in 1..D.h[n] : Part(v.cells[y + j - 1], x, D.w[n]) = v.sh[n][j]

C02_Outline ==
  Drawn /\ Clean =>
    LET v == Seen
        H == Len(v.cells)
        right == v.ind + v.left + v.inner + 1
        total == right + v.right - 1
    IN /\ \A j \in 1..H : Len(v.cells[j]) <= total \/ ~Solid(SubSeq(v.cells[j], total + 1, Len(v.cells[j])))
       /\ v.top > 0 => /\ v.left > 0 => CornerOK(v, "NW", v.ind + 1, 1)
                       /\ CornerOK(v, "NE", right, 1)
                       /\ HorizOK(v, [j \in 1..v.top |-> Inside(v, j)], <<"NNW", "N", "NNE">>, v.inner)
       /\ v.bottom > 0 => LET y == H - v.bottom
                          IN /\ v.left > 0 => CornerOK(v, "SW", v.ind + 1, y + 1)
                             /\ CornerOK(v, "SE", right, y + 1)
                             /\ HorizOK(v, [j \in 1..v.bottom |-> Inside(v, y + j)], <<"SSW", "S", "SSE">>, v.inner)
       /\ v.left > 0 => VertOK(v, [k \in 1..v.height |-> Part(v.cells[v.top + k], v.ind + 1, v.left)], <<"WNW", "W", "WSW">>)
       /\ VertOK(v, [k \in 1..v.height |-> Part(v.cells[v.top + k], right, v.right)], <<"ENE", "E", "ESE">>)

(********************************** C03 ************************************)
\* Can a side of length x be formed?  Two elastic shapes extend in turns, the first one first.
Formable(ns, size(_), x) ==
  LET el == SelectSeq(ns, LAMBDA n : n \in D.el)
      fixed == SumSeq([i \in 1..3 |-> IF ns[i] \in D.el \/ Empty(D.sh[ns[i]]) THEN 0 ELSE size(ns[i])])
  IN \E k \in 1..(x + 2) :
       x = fixed + (IF Len(el) = 1 THEN k * size(el[1])
                    ELSE ((k + 1) \div 2) * size(el[1]) + (k \div 2) * size(el[2]))
\* The smallest size from least on which both of two opposite sides can form.
Smallest(x, least, ns1, ns2, size(_)) ==
  /\ x >= least
  /\ Formable(ns1, size, x) /\ Formable(ns2, size, x)
  /\ \A y \in least..(x - 1) : ~(Formable(ns1, size, y) /\ Formable(ns2, size, y))
PadGiven(s) == IF O.pad[s] > -1 THEN O.pad[s] ELSE Raw.pad[s]
SizeW(n) == D.w[n]
SizeH(n) == D.h[n]
C03_Size ==
  Drawn /\ Clean /\ FromInput =>
    LET v == Seen
        \* a blank side which is left out is not counted
        hiddenw == (IF D.empty[LEFT] THEN D.w["NW"] ELSE 0) + (IF D.empty[RIGHT] THEN D.w["NE"] ELSE 0)
        hiddenh == (IF D.empty[TOP] THEN D.h["NW"] ELSE 0) + (IF D.empty[BOTTOM] THEN D.h["SW"] ELSE 0)
        \* the least size inside the box
        least(text, pad, min, req, hidden, corners) ==
          IF req = 0 THEN Max2(text + pad, min - corners) ELSE Max2(text, Max2(min, req) + hidden - corners)
    IN /\ Smallest(v.inner, least(v.block, PadGiven(LEFT) + PadGiven(RIGHT), Raw.minw, O.reqw, hiddenw, D.w["NW"] + D.w["NE"]),
                   <<"NNW", "N", "NNE">>, <<"SSE", "S", "SSW">>, SizeW)
       /\ Smallest(v.height, least(Len(v.lines), PadGiven(TOP) + PadGiven(BOTTOM), Raw.minh, O.reqh, hiddenh, D.h["NW"] + D.h["SW"]),
                   <<"ENE", "E", "ESE">>, <<"WSW", "W", "WNW">>, SizeH)

\* A box is given up only if there is no size on which opposite sides agree.
NoSize(ns1, ns2, size(_), least) == \A x \in least..(least + 40) : ~(Formable(ns1, size, x) /\ Formable(ns2, size, x))
Impossible ==
  IF pc = "growh" THEN NoSize(<<"NNW", "N", "NNE">>, <<"SSE", "S", "SSW">>, LAMBDA n : job.fd.w[n], Target.h)
  ELSE NoSize(<<"ENE", "E", "ESE">>, <<"WSW", "W", "WNW">>, LAMBDA n : job.fd.h[n], Target.v)
GivesUp == pc \in {"growh", "growv"} /\ Len(hist') > Len(hist) => Impossible
C03_GivenUp == [][GivesUp]_vars

(********************************** C04 ************************************)
\* The padding left is what was given, or less because of a requested size.
Sacrificed(given, left, requested, room) ==
  /\ left[1] \in 0..given[1] /\ left[2] \in 0..given[2]
  /\ ~requested => left = given
  /\ LET c1 == given[1] - left[1]
         c2 == given[2] - left[2]
     IN /\ c1 + c2 > 0 => room <= 0                    \* no more than needed
        /\ Abs(c1 - c2) <= 1 \/ (left[1] = 0 /\ c2 > c1) \/ (left[2] = 0 /\ c1 > c2)
C04_Padding ==
  Drawn /\ Clean /\ FromInput =>
    LET v == Seen
        p == v.pads
    IN /\ SpaceH(v) >= 0 /\ SpaceV(v) >= 0
       /\ Sacrificed(<<PadGiven(LEFT), PadGiven(RIGHT)>>, <<p[LEFT], p[RIGHT]>>, O.reqw > 0,
                     D.minw - v.block - D.w["NW"] - D.w["NE"] - p[LEFT] - p[RIGHT])
       /\ Sacrificed(<<PadGiven(TOP), PadGiven(BOTTOM)>>, <<p[TOP], p[BOTTOM]>>, O.reqh > 0,
                     D.minh - Len(v.lines) - D.h["NW"] - D.h["SW"] - p[TOP] - p[BOTTOM])
       \* the blanks are there
       /\ \A j \in 1..v.height :
            LET row == Inside(v, v.top + j)
            IN /\ j <= p[TOP] \/ j > v.height - p[BOTTOM] => ~Solid(row)
               /\ ~Solid(Upto(row, p[LEFT])) /\ ~Solid(From(row, v.inner - p[RIGHT] + 1))

(********************************** C07 ************************************)
\* columns at which tabs of a row start
RECURSIVE TabCols(_, _, _)
TabCols(s, i, col) ==
  IF i > Len(s) \/ s[i] \notin {SP, TAB} THEN {}
  ELSE IF s[i] = TAB THEN {col} \cup TabCols(s, i + 1, col + O.tabstop - (col % O.tabstop))
  ELSE TabCols(s, i + 1, col + 1)
C07_Tabs ==
  Drawn /\ Clean /\ FromInput /\ D.indent = "b" =>
    LET v == Seen
        raw == RowsOf(InputText)
        stop(c) == c + O.tabstop - (c % O.tabstop)
        y0 == BlockY(v)
    IN \A j \in 1..Len(v.rows) :
         LET tabs == TabCols(v.rows[j], 1, 0)
             i == j - v.top - y0
         IN /\ O.tabexp = "e" => ~Contains(v.rows[j], TAB)
            /\ Solid(v.cells[j]) =>
                 /\ O.tabexp = "u" => tabs = {c \in 0..v.common : c % O.tabstop = 0 /\ c + O.tabstop <= v.common}
                 /\ O.tabexp = "k" /\ i \in 1..Len(v.lines) /\ Solid(v.text[i])
                      => tabs = {c \in TabCols(raw[i], 1, 0) : stop(c) <= v.common}

(********************************** C18 ************************************)
C18_LineBreaks ==
  pc = "emit" /\ job.row > job.last /\ Encoding = S("UTF-8") /\ (\A i \in 1..Len(InLines) : ~Contains(InLines[i].s, CR)) =>
    LET n == Len(O.eol)
        starts == {i \in 1..(Len(out) - n + 1) : SubSeq(out, i, i + n - 1) = O.eol}
    IN /\ \A i \in 1..Len(out) : IsBreak(out[i]) => \E s \in starts : i \in s..(s + n - 1)
       /\ Cardinality(starts) = (job.last - (IF job.removing THEN 1 ELSE FirstRow(job.fd)) + 1) - (IF FinalBreak(InputText) THEN 0 ELSE 1)
          \/ job.last < 1
       /\ out # <<>> /\ FinalBreak(InputText) => IsBreak(out[Len(out)])

(********************************** C10 ************************************)
\* Code points of which the design's shapes are made.
Marks == UNION {UNION {SetOf(Vis(D.sh[n][j])) : j \in 1..Len(D.sh[n])} : n \in Names}
Removed == pc = "emit" /\ job.removing /\ job.row > job.last
C10_OnlyBoxParts ==
  Removed /\ Encoding = S("UTF-8") /\ D.rev = <<>> /\ ~HasEsc(InputText) /\ O.tabexp = "e" /\ Len(RowsOf(InputText)) <= 12 =>
    LET rows == OutRows
        ls == ReadLines(InputText, O.tabstop, TRUE)
        ok(s) == \A i \in 1..Len(s) : IsBlank(s[i]) \/ s[i] \in Marks
        \* may row come from line by taking away box parts and blanks at its ends?
        Cut(line, row) ==
          LET l == Trim(line)
              r == Trim(row)
          IN IF r = <<>> THEN ok(l)
             ELSE \E p \in 1..(Len(l) - Len(r) + 1) :
                    SubSeq(l, p, p + Len(r) - 1) = r /\ ok(Upto(l, p - 1)) /\ ok(From(l, p + Len(r)))
        \* line k may vanish
        gone(k) == ok(ls[k].s)
        RECURSIVE match(_, _)
        match(i, k) ==
          IF k > Len(ls) THEN i > Len(rows)
          ELSE \/ i <= Len(rows) /\ Cut(ls[k].s, rows[i]) /\ match(i + 1, k + 1)
               \/ gone(k) /\ match(i, k + 1)
    IN match(1, 1)

(********************************** C12 ************************************)
\* Blank lines at the ends of the text that is left.
C12_BlankLines ==
  Removed /\ Encoding = S("UTF-8") /\ D.rev = <<>> /\ FinalBreak(InputText) /\ job.bs # <<>> /\ O.eol = <<LF>> /\ (\E i \in 1..Len(OutRows) : ~BlankB(Str(OutRows[i]))) =>
    LET rows == OutRows
        n == Len(rows)
        ends(ls) == LET nb == {i \in 1..Len(ls) : ~BlankB(Str(ls[i]))} IN <<MinOf(nb) - 1, Len(ls) - MaxOf(nb)>>
        outside == ends([i \in 1..Len(InLines) |-> InLines[i].s])                 \* blank lines around the box
        \* lines of the input within the sides, of which box parts may be taken away
        within == Len(job.bs) - (job.top[2] - job.top[1]) - (job.bottom[2] - job.bottom[1])
        visible == ~D.empty[TOP] \/ ~D.empty[BOTTOM]
        kill == O.killblank = 1 \/ (O.killblank = -1 /\ visible)
    IN /\ kill => ends(rows) = outside
       /\ ~kill => n >= within - D.pad[TOP] - D.pad[BOTTOM] /\ n <= within

(********************************** C11 ************************************)
C11_Detection ==
  pc = "detect" /\ ~UserChoice =>
    LET bs == [i \in 1..Len(job.blk.lines) |-> Str(job.blk.lines[i].s)]
        best == Detected(Designs, bs)
        plain == InputMono(bs) /\ \A i \in 1..Len(Designs) : DesignMono(Designs[i])
        hits(i) == Hits(Designs[i], bs, "lit")
    IN plain => IF best = 0 THEN \A i \in 1..Len(Designs) : hits(i) = 0
                ELSE \A i \in 1..Len(Designs) : hits(i) < hits(best) \/ (hits(i) = hits(best) /\ best <= i)

(********************************** C13 ************************************)
WellFormed(d) ==
  /\ d.sample.set
  /\ \A n \in Names : \A j \in 1..Len(d.sh[n]) : Len(Cells(d.sh[n][j])) = Len(Cells(d.sh[n][1]))
  /\ \A n \in Corners : d.sh[n] # <<>>
  /\ \A s \in 1..4 :
       LET given == {n \in SetOf(SideOf[s]) : d.sh[n] # <<>>}
           el == {i \in 1..5 : SideOf[s][i] \in d.el}
       IN /\ \A a, b \in given : IF Horizontal(s) THEN Len(d.sh[a]) = Len(d.sh[b]) ELSE Len(Cells(d.sh[a][1])) = Len(Cells(d.sh[b][1]))
          /\ Cardinality(el) \in {1, 2} /\ el \subseteq 2..4
          /\ \A i \in el : d.sh[SideOf[s][i]] # <<>>
          \* there is something between two elastic shapes
          /\ \A i, k \in el : i < k => \E m \in (i + 1)..(k - 1) : d.sh[SideOf[s][m]] # <<>>
C13_WellFormed == pc = "choose" /\ ~O.create.set => \A i \in 1..Len(Designs) : WellFormed(Designs[i])

(********************************** C14 ************************************)
C14_Names ==
  pc = "choose" /\ ~O.create.set =>
    /\ \A i, k \in 1..Len(Designs) : i # k => ~EqNoCase(Designs[i].name, Designs[k].name)
    /\ \A i, k \in 1..Len(load.plist) : i # k => load.plist[i] # load.plist[k]
    /\ load.parsed <= 1 + Len(load.plist)
    /\ O.design.set /\ Designs # <<>> => HasName(Designs[1], O.design.val)

(********************************** C15 ************************************)
\* The files that are looked for, first choice first: the option -f, the variable BOXES, the home directory, the
\* XDG directory, .config in the home directory, the file the program was built with, and the system's directories.
C15_Order ==
  pc = "load" /\ load.parsed = 0 /\ load.next = 1 /\ load.ds = <<>> =>
    LET in(dir) == [i \in 1..4 |-> dir \o S("/") \o <<S(".boxes"), S("box-designs"), S("boxes-config"), S("boxes")>>[i]]
        e == Run.env
        at(v, suffix) == IF v.set THEN in(v.val \o suffix) ELSE <<>>
        files == IF O.config.set THEN <<O.config.val>> \o in(O.config.val)
                 ELSE IF e.boxes.set THEN <<e.boxes.val>> \o in(e.boxes.val)
                 ELSE at(e.home, <<>>) \o at(e.xdg, S("/boxes")) \o at(e.home, S("/.config/boxes")) \o <<World.global>>
                      \o in(S("/etc/xdg/boxes")) \o in(S("/usr/local/share/boxes")) \o in(S("/usr/share/boxes"))
        there == {i \in 1..Len(files) : files[i] # <<>> /\ IsFile(FS, files[i])}
    IN there # {} /\ Norm(load.first) = Norm(files[MinOf(there)])

(********************************** C16 ************************************)
Wanted(q, d) ==
  LET has(i) == (q[i].tag = QueryAll /\ q[i].sign = "") \/ Contains(d.tags, q[i].tag)
      of(sign) == {i \in 1..Len(q) : q[i].sign = sign}
  IN /\ \A i \in of("+") : has(i)
     /\ \A i \in of("-") : ~has(i)
     /\ of("+") = {} /\ of("") # {} => \E i \in of("") : has(i)
C16_Query ==
  pc = "query" =>
    LET rows == QueryLines(O.query.val, Designs)
        q == O.query.val
        shows(s) == \E i \in 1..Len(rows) : rows[i] = s
        of(s, d) == s = d.name \/ \E k \in 1..Len(d.aliases) : s = d.aliases[k] \o S(" (alias)")
        main == SelectSeq(rows, LAMBDA s : \E i \in 1..Len(Designs) : s = Designs[i].name)
    IN /\ \A i \in 1..Len(Designs) : Wanted(q, Designs[i]) =>
            shows(Designs[i].name) /\ \A k \in 1..Len(Designs[i].aliases) : shows(Designs[i].aliases[k] \o S(" (alias)"))
       /\ \A r \in 1..Len(rows) : \E i \in 1..Len(Designs) : of(rows[r], Designs[i]) /\ Wanted(q, Designs[i])
       /\ \A i \in 1..(Len(main) - 1) : ~LessNoCase(main[i + 1], main[i])

(****************************** all the rest *******************************)
Done == [r \in 1..Len(hist) |-> [out |-> IF hist[r].dest = <<>> THEN hist[r].out ELSE <<>>, rc |-> hist[r].rc, says |-> hist[r].says]]
InputOf(R, r) == LET i == World.runs[r].stdin IN IF i.t = "prev" /\ r > 1 THEN R[r - 1].out ELSE i.s
Inputs(R) == [r \in 1..Len(R) |-> InputOf(R, r)]
SpecFile(p) == LET e == Entry(World.fs \o disk, p) IN IF e.kind = "file" THEN e.data ELSE <<-1>>
BrokenClaims(R, file(_)) ==
  SelectSeq([k \in 1..Len(World.claims) |-> k], LAMBDA k : ~Holds(World.claims[k], R, Inputs(R), file, Convert))
\* Failing runs show nothing, and every run gets a result.
C24_Honest == \A r \in 1..Len(hist) : hist[r].rc \in {0, 1} /\ (hist[r].rc = 1 => hist[r].out = <<>> /\ hist[r].says)
C25_Terminates == <>(pc = "end")
=============================================================================
