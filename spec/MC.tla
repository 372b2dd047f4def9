--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Model checking: families of worlds which are complete up to a bound.    *)
(* All behaviours in them are checked for the properties (Props), and      *)
(* every world is printed with what must come of it, so that the real      *)
(* program can be run in it.                                               *)
(*                                                                         *)
(* Environment: FAMILY names the family, SCOPE is quick or deep, and the   *)
(* worlds are written to the file OUT.                                     *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils, TLC

Deep == IOEnv.SCOPE = "deep"

(****************************** worlds *************************************)
Nl == <<LF>>
Env0 == [boxes |-> None, home |-> None, xdg |-> None]
Data(t) == [t |-> "data", s |-> t]
Prev == [t |-> "prev", s |-> <<>>]
R(args, stdin) == [args |-> args, env |-> Env0, term |-> TRUE, sink |-> "pipe", stdin |-> stdin]
ConfAt(p, k) == [path |-> p, kind |-> "conf", data |-> <<>>, cfg |-> k]
DirAt(p) == [path |-> p, kind |-> "dir", data |-> <<>>, cfg |-> 0]
FileAt(p, t) == [path |-> p, kind |-> "file", data |-> t, cfg |-> 0]
W(fs, runs, claims) == [fs |-> fs, runs |-> runs, global |-> S("global/boxes-config"), view |-> "full", claims |-> claims]
Claim(t, a, b) == [t |-> t, a |-> a, b |-> b, s |-> <<>>, x |-> <<>>]
Base == <<S("-f"), S("cfg")>>
\* runs of one configuration file
W1(k, runs) == W(<<ConfAt(S("cfg"), k)>>, runs, <<>>)
WC(k, runs, claims) == W(<<ConfAt(S("cfg"), k)>>, runs, claims)
Num(n) == S(ToString(n))
TextOf(ls) == JoinSeq(ls, Nl) \o Nl
Family2(cs, ws) == [configs |-> cs, worlds |-> SetToSeq(ws)]
\* all sequences of lo to hi elements
Seqs(X, lo, hi) == UNION {[1..n -> X] : n \in lo..hi}

(****************************** designs ************************************)
Smp == [k |-> "sample", lines |-> <<S("smp")>>]
Shapes(ps) == [k |-> "shapes", shapes |-> [i \in 1..Len(ps) |-> [n |-> ps[i][1], lines |-> ps[i][2]]]]
Elastic(ns) == [k |-> "elastic", names |-> ns]
PadSec(area, n) == [k |-> "padding", areas |-> << [area |-> S(area), n |-> n] >>]
Key(k, v) == [k |-> "key", key |-> S(k), val |-> S(v)]
Tags(ts) == [k |-> "tags", items |-> [i \in 1..Len(ts) |-> S(ts[i])]]
Box(names, secs) == [k |-> "box", names |-> [i \in 1..Len(names) |-> S(names[i])], secs |-> secs, end |-> S(names[1])]
Design1(name, ps, el, more) == Box(<<name>>, <<Smp, Shapes(ps), Elastic(el)>> \o more)
\* one character per shape
Frame(name, str, more) ==
  LET c(i) == << <<S(str)[i]>> >>
  IN Design1(name, << <<"NW", c(1)>>, <<"N", c(2)>>, <<"NE", c(3)>>, <<"E", c(4)>>, <<"SE", c(5)>>, <<"S", c(6)>>, <<"SW", c(7)>>, <<"W", c(8)>> >>,
             <<"N", "E", "S", "W">>, more)
Plain(name, more) == Frame(name, "+-+|+-+|", more)

\* Shapes of lettered cells: each cell of a design is different from all others as far as possible.
Letter(n, r, c) ==
  LET i == CHOOSE j \in 1..16 : Clockwise[j] = n
  IN IF r = 1 /\ c = 1 THEN 64 + i ELSE IF r = 1 /\ c = 2 THEN 96 + i ELSE 34 + i
Lettered(n, w, h) == <<n, [r \in 1..h |-> [c \in 1..w |-> Letter(n, r, c)]]>>
\* which shapes of a side are there, and which are elastic
Patterns == << <<{2}, {2}>>, <<{1}, {1}>>, <<{3}, {3}>>, <<{1, 2}, {1}>>, <<{1, 2}, {2}>>, <<{2, 3}, {2}>>, <<{2, 3}, {3}>>, <<{1, 3}, {1}>>, <<{1, 3}, {3}>>,
               <<{1, 2, 3}, {1}>>, <<{1, 2, 3}, {2}>>, <<{1, 2, 3}, {3}>>, <<{1, 2, 3}, {1, 3}>> >>
Mid(side) == <<<<"NNW", "N", "NNE">>, <<"ENE", "E", "ESE">>, <<"SSE", "S", "SSW">>, <<"WSW", "W", "WNW">>>>[side]
Idx3(X) == SelectSeq(<<1, 2, 3>>, LAMBDA i : i \in X)
\* pats: patterns of the four sides; size(n): size of shape n along its side
Sides4(pats, size(_)) ==
  LET of(side) == LET ids == Idx3(Patterns[pats[side]][1])
                  IN [i \in 1..Len(ids) |-> LET n == Mid(side)[ids[i]]
                                            IN IF Horizontal(side) THEN Lettered(n, size(n), 1) ELSE Lettered(n, 1, size(n))]
      el(side) == LET ids == Idx3(Patterns[pats[side]][2]) IN [i \in 1..Len(ids) |-> Mid(side)[ids[i]]]
  IN Design1("d", <<Lettered("NW", 1, 1), Lettered("NE", 1, 1), Lettered("SE", 1, 1), Lettered("SW", 1, 1)>> \o of(1) \o of(2) \o of(3) \o of(4),
             el(1) \o el(2) \o el(3) \o el(4), <<>>)

(***************************** families ************************************)
\* C02, C03: every pair of opposite sides, in boxes of several sizes
FSides(x) ==
  LET rot(i) == (i % 13) + 1
      sizes == IF Deep THEN {<<a, b>> : a \in 1..3, b \in 1..2} ELSE {<<1, 2>>, <<2, 1>>}
      key == {<<i, j, z>> : i \in 1..13, j \in 1..13, z \in sizes}
      keys == SetToSeq(key)
      cfg(q) == << Sides4(<<q[1], q[2], q[2], rot(q[1])>>, LAMBDA n : IF n \in {"N", "S", "E", "W"} THEN q[3][1] ELSE q[3][2]) >>
      lens == IF Deep THEN {1, 2, 3, 5, 6, 8, 9} ELSE {1, 4, 7}
      text(n) == TextOf([i \in 1..n |-> [k \in 1..n |-> 46]])
      runs == SetToSeq(lens)
  IN [ configs |-> [i \in 1..Len(keys) |-> cfg(keys[i])],
       worlds |-> [i \in 1..Len(keys) |-> W1(i, [r \in 1..Len(runs) |-> R(Base, Data(text(runs[r])))])] ]

\* C03: requested sizes
SizeDesigns ==
  << << Plain("d", <<>>) >>,
     << Plain("d", <<PadSec("all", 1)>>) >>,
     << Design1("d", << <<"NW", <<S("/*")>> >>, <<"N", <<S("*")>> >>, <<"W", <<S(" *")>> >>, <<"SW", <<S(" *")>> >>, <<"S", <<S("*")>> >>, <<"SE", <<S("*/")>> >> >>,
                <<"N", "W", "S">>, <<PadSec("left", 1)>>) >>,
     << Design1("d", << <<"NNW", <<S("ab")>> >>, <<"N", <<S("-")>> >>, <<"NNE", <<S("cd")>> >>, <<"S", <<S("123")>> >>, <<"E", <<S("x"), S("y")>> >>, <<"W", <<S("|")>> >>, <<"WSW", <<S("!"), S("?")>> >> >>,
                <<"NNW", "NNE", "S", "E", "W">>, <<>>) >>,
     << Design1("d", << <<"W", <<S("#")>> >> >>, <<"W">>, <<PadSec("left", 2)>>) >>,
     << Design1("d", << <<"N", <<S("="), S("-")>> >>, <<"E", <<S("]]")>> >> >>, <<"N", "E">>, <<>>) >> >>
FSize(x) ==
  LET ws == IF Deep THEN 0..12 ELSE {0, 1, 3, 4, 6, 8, 9}
      hs == IF Deep THEN 0..8 ELSE {0, 1, 3, 4, 6}
      texts == {S("a") \o Nl, S("abc") \o Nl \o S(" d") \o Nl} \cup IF Deep THEN {Nl, S("abcde") \o Nl \o Nl \o S("f") \o Nl} ELSE {}
      opt(w, h) == CASE w = 0 /\ h = 0 -> <<>>
                     [] w > 0 /\ h = 0 -> <<S("-s"), Num(w)>>
                     [] w = 0 /\ h > 0 -> <<S("-s"), S("x") \o Num(h)>>
                     [] OTHER -> <<S("-s"), Num(w) \o S("x") \o Num(h)>>
      hsq == SetToSeq(hs)
  IN Family2(SizeDesigns, {W1(k, [i \in 1..Len(hsq) |-> R(Base \o opt(w, hsq[i]), Data(t))]) : k \in 1..Len(SizeDesigns), w \in ws, t \in texts})

\* C04: padding of the design, padding given, and requested size
FPad(x) ==
  LET pads == {-1, 0, 1, 3}
      opt(a, c, b, d) == LET s == (IF a < 0 THEN <<>> ELSE S(c) \o Num(a)) \o (IF b < 0 THEN <<>> ELSE S(d) \o Num(b)) IN IF s = <<>> THEN <<>> ELSE <<S("-p"), s>>
      text == S("ab") \o Nl \o S("c") \o Nl
      ws == SetToSeq(IF Deep THEN 0..11 ELSE {0, 5, 6, 8})
      hs == SetToSeq(IF Deep THEN 0..10 ELSE {0, 5, 7})
      sz(f, n) == IF n = 0 THEN <<>> ELSE <<S("-s"), f \o Num(n)>>
      cs == << <<Plain("d", <<>>)>>, <<Plain("d", <<PadSec("left", 2), PadSec("right", 1), PadSec("top", 1), PadSec("bottom", 2)>>)>>,
               <<Design1("d", << <<"W", <<S("#")>> >>, <<"S", <<S("~")>> >> >>, <<"W", "S">>, <<PadSec("all", 1)>>)>> >>
  IN Family2(cs, {W1(k, [i \in 1..Len(ws) |-> R(Base \o opt(a, "l", b, "r") \o sz(<<>>, ws[i]), Data(text))]) : k \in 1..3, a \in pads, b \in pads}
              \cup {W1(k, [i \in 1..Len(hs) |-> R(Base \o opt(a, "t", b, "b") \o sz(S("x"), hs[i]), Data(text))]) : k \in 1..3, a \in pads, b \in pads}
              \cup {W1(k, <<R(Base \o opt(a, c, b, d), Data(text))>>) : k \in 1..3, a \in {0, 2}, b \in {1, 3}, c \in {"a", "h", "v", "l"}, d \in {"a", "h", "v", "b", "r"}})

\* C05: alignment
FAlign(x) ==
  LET texts == {S("a") \o Nl, S("abc") \o Nl \o S("d") \o Nl, S(" ab") \o Nl \o Nl \o S("   c") \o Nl} \cup
               IF Deep THEN {S("a") \o Nl \o S(" bcd") \o Nl \o S("ef") \o Nl, S("  ab") \o Nl \o S("  c") \o Nl} ELSE {}
      sizes == IF Deep THEN {<<>>, <<S("-s"), S("8x5")>>, <<S("-s"), S("9x6")>>, <<S("-s"), S("9x6"), S("-p"), S("l1b1")>>} ELSE {<<S("-s"), S("8x5")>>, <<S("-s"), S("9x6"), S("-p"), S("l1b1")>>}
      js == <<"", "jl", "jc", "jr">>
      av(h, v, j) == <<S("-a"), S("h") \o S(h) \o S("v") \o S(v) \o S(j)>>
  IN Family2(<< <<Plain("d", <<>>)>>, <<Plain("d", <<Key("indent", "text")>>)>> >>,
       {W1(k, [j \in 1..4 |-> R(Base \o z \o av(h, v, js[j]), Data(t))]) : k \in 1..2, h \in {"l", "c", "r"}, v \in {"t", "c", "b"}, z \in sizes, t \in texts})

\* C06: indentation modes
FIndent(x) ==
  LET ls == {<<>>, S("a"), S(" b"), S("   c"), S("  ")} \cup IF Deep THEN {<<TAB>> \o S("d"), S("ef ")} ELSE {}
      modes == <<"", "box", "text", "none">>
      cs == [m \in 1..4 |-> <<Plain("d", IF m = 1 THEN <<>> ELSE <<Key("indent", modes[m])>>)>>]
      av(m) == IF m = 1 THEN <<>> ELSE <<S("-i"), S(modes[m])>>
  IN Family2(cs, {W1(k, [m \in 1..4 |-> R(Base \o av(m), Data(TextOf(t)))]) : k \in 1..4, t \in Seqs(ls, 1, IF Deep THEN 3 ELSE 2)})

\* C07: tabs
FTabs(x) ==
  LET T == <<TAB>>
      ls == {T \o S("a"), S(" ") \o T \o S("b"), S("   c"), T \o T \o S("d"), T, S("e") \o T \o S("f"), S("  ") \o T \o S(" g")}
      ns == SetToSeq(IF Deep THEN {1, 2, 3, 4, 5, 8, 16} ELSE {1, 3, 8})
  IN Family2(<< <<Plain("d", <<>>)>>, <<Design1("d", << <<"W", <<S("#")>> >> >>, <<"W">>, <<PadSec("left", 1)>>)>> >>,
       {W1(k, [n \in 1..Len(ns) |-> R(Base \o <<S("-t"), Num(ns[n]) \o S(m)>>, Data(TextOf(t)))]) : k \in (IF Deep THEN 1..2 ELSE {1}), m \in {"e", "k", "u"}, t \in Seqs(ls, 1, 2)})

\* C01, C18, C25: every tiny text
FTiny(x) ==
  LET cs == {97, SP, LF, TAB, CR}
      texts == UNION {[1..n -> cs] : n \in 0..(IF Deep THEN 5 ELSE 3)}
  IN Family2(<< <<Plain("d", <<>>)>>, <<Design1("d", << <<"W", <<S("#")>> >> >>, <<"W">>, <<PadSec("left", 1)>>)>> >>,
       {WC(k, <<R(Base, Data(t)), R(Base \o <<S("-r")>>, Prev), R(Base \o <<S("-r")>>, Data(t)), R(Base \o <<S("-m")>>, Data(t))>>, <<>>) : k \in 1..2, t \in texts})

\* C08, C09: boxes drawn, removed, and mended
RoundDesigns ==
  << <<Plain("d", <<>>)>>, <<Plain("d", <<PadSec("h", 1)>>)>>, <<Design1("d", << <<"W", <<S("#")>> >> >>, <<"W">>, <<PadSec("left", 1)>>)>>,
     << Design1("d", << <<"NW", <<S("/*")>> >>, <<"N", <<S("*")>> >>, <<"W", <<S(" *")>> >>, <<"SW", <<S(" *")>> >>, <<"S", <<S("*")>> >>, <<"SE", <<S("*/")>> >> >>,
                <<"N", "W", "S">>, <<PadSec("left", 1)>>) >>,
     <<Design1("d", << <<"NW", <<S("/~"), S("| ")>> >>, <<"N", <<S("~"), S("=")>> >>, <<"NE", <<S("\\"), S("|")>> >>, <<"E", <<S("|"), S(":")>> >>, <<"W", <<S("||"), S("::"), S(".:")>> >>, <<"S", <<S("_-")>> >>, <<"SW", <<S("\\_")>> >>, <<"SE", <<S("/")>> >> >>,
                <<"N", "E", "S", "W">>, <<PadSec("all", 1)>>)>> >>
FRound(x) ==
  LET ls == {<<>>, S("a"), S("b c"), S("  d"), S("e ")} \cup IF Deep THEN {S("*"), S("|"), S("fgh")} ELSE {}
      texts == {TextOf(t) : t \in Seqs(ls, 1, IF Deep THEN 3 ELSE 2)} \cup {JoinSeq(t, Nl) : t \in [1..2 -> ls]}
  IN Family2(RoundDesigns,
       {WC(k, <<R(Base, Data(t)), R(Base \o <<S("-r")>>, Prev), R(Base \o <<S("-d"), S("d")>>, Data(t)), R(Base \o <<S("-d"), S("d"), S("-m")>>, Prev), R(Base \o <<S("-m")>>, Prev)>>,
           <<Claim("back", 2, 1)>> \o IF t # <<>> /\ t[Len(t)] = LF THEN <<Claim("intact", 4, 3), Claim("same", 5, 4)>> ELSE <<>>) : k \in 1..Len(RoundDesigns), t \in texts})

\* C10, C12: everything that can be put together from parts of a box
FRemove(x) ==
  LET parts == {<<>>, S("+--+"), S("| a |"), S("|    |"), S("a"), S("  | b"), S("-+"), S("|") \o <<12288>> \o S(" |")} \cup IF Deep THEN {S("|"), S(" +-"), S("  "), <<124, TAB, 124>>} ELSE {}
      cs == << <<Plain("d", <<PadSec("all", 1)>>)>>, <<Plain("d", <<>>)>>, <<Design1("d", << <<"NW", <<S("+-")>> >>, <<"N", <<S("-")>> >>, <<"W", <<S("| ")>> >> >>, <<"N", "W">>, <<>>)>> >>
      kill == <<<<>>, <<S("-k"), S("true")>>, <<S("-k"), S("false")>>>>
  IN Family2(cs, {W1(k, [i \in 1..3 |-> R(Base \o <<S("-d"), S("d"), S("-r")>> \o kill[i], Data(TextOf(t)))]) : k \in (IF Deep THEN 1..3 ELSE 1..2), t \in Seqs(parts, 1, 3)})

\* C11: several designs which look similar
FDetect(x) ==
  LET parts == {<<>>, S("+--+"), S("#--#"), S("| a |"), S("# b #"), S("+==+")} \cup IF Deep THEN {S("c"), S("#"), S("+a")} ELSE {}
      d(n) == <<Frame("one", "+-+|+-+|", <<>>), Frame("two", "#-#|#-#|", <<PadSec("left", 1)>>), Frame("three", "+=+#+=+#", <<>>),
                Design1("four", << <<"W", <<S("#")>> >> >>, <<"W">>, <<>>)>>[n]
      orders == IF Deep THEN << <<1, 2, 3, 4>>, <<4, 3, 2, 1>>, <<2, 1, 4, 3>>, <<3, 1, 4, 2>> >> ELSE << <<1, 2, 3, 4>>, <<4, 3, 2, 1>> >>
      names == <<"one", "two", "three", "four">>
      sel == <<<<>>>> \o [i \in 1..4 |-> <<S("-d"), S(names[i])>>]
  IN Family2([i \in 1..Len(orders) |-> [j \in 1..4 |-> d(orders[i][j])]],
       {WC(k, [i \in 1..(IF k = 1 THEN 5 ELSE 1) |-> R(Base \o <<S("-r")>> \o sel[i], Data(TextOf(t)))], IF k = 1 THEN <<Claim("among", 1, 5)>> ELSE <<>>)
         : k \in 1..Len(orders), t \in Seqs(parts, 1, 3)})

\* C13: which shapes of a side are there, which are elastic
FElastic(x) ==
  LET north == <<"NNW", "N", "NNE">>
      key == SetToSeq({<<p, e, c, z>> : p \in SUBSET {1, 2, 3}, e \in SUBSET {1, 2, 3}, c \in SUBSET {"NW", "NE"}, z \in 0..(IF Deep THEN 3 ELSE 1)})
      \* z: something does not fit
      shape(n, z) == <<n, IF z = 1 /\ n = "N" THEN <<S("-"), S("=")>> ELSE IF z = 2 /\ n = "NE" THEN <<S("+"), S("++")>> ELSE IF z = 3 /\ n = "NNW" THEN <<S("  ")>> ELSE <<S("x")>> >>
      sec(q) == LET ids == Idx3(q[1])
                    cor == SelectSeq(<<"NW", "NE">>, LAMBDA n : n \in q[3])
                    el == Idx3(q[2])
                IN <<Smp, Shapes([i \in 1..Len(ids) |-> shape(north[ids[i]], q[4])] \o [i \in 1..Len(cor) |-> shape(cor[i], q[4])] \o << <<"W", <<S("|")>> >> >>),
                     Elastic([i \in 1..Len(el) |-> north[el[i]]] \o <<"W">>)>>
      cfg(q) == <<Box(<<"a">>, sec(q)), Plain("b", <<>>)>>
      t == S("hello") \o Nl
  IN [configs |-> [i \in 1..Len(key) |-> cfg(key[i])],
      worlds |-> [i \in 1..Len(key) |-> W1(i, <<R(Base \o <<S("-d"), S("a")>>, Data(t)), R(Base \o <<S("-d"), S("b")>>, Data(t)), R(Base \o <<S("-l")>>, Data(<<>>))>>)]]

\* C14: parents
FParents(x) ==
  LET ref == <<S("f1"), S("f2"), S("f3")>>
      lists == {<<>>} \cup {<<a>> : a \in 1..3} \cup {l \in (1..3) \X (1..3) : l[1] # l[2]}
      some == IF Deep THEN lists ELSE {l \in lists : Len(l) < 2 \/ l \in {<<2, 3>>, <<3, 2>>}}
      own == <<Frame("x", "11111111", <<>>), Frame("y", "22222222", <<>>), Frame("z", "33333333", <<>>)>>
      all == <<Box(<<"common", "p">>, <<Smp, Shapes(<< <<"W", <<S("1")>> >> >>), Elastic(<<"W">>)>>),
               Box(<<"Common", "q">>, <<Smp, Shapes(<< <<"W", <<S("2")>> >> >>), Elastic(<<"W">>)>>),
               Box(<<"q", "p">>, <<Smp, Shapes(<< <<"W", <<S("3")>> >> >>), Elastic(<<"W">>)>>)>>
      ls == SetToSeq(some)
      cfg(f, l) == [i \in 1..Len(l) |-> [k |-> "parent", file |-> ref[l[i]]]] \o <<own[f], all[f]>>
      n == Len(ls)
      t == S("t") \o Nl
      sel == <<<<>>, <<S("-d"), S("common")>>, <<S("-d"), S("q")>>, <<S("-d"), S("P")>>, <<S("-d"), S("z")>>, <<S("-q"), S("(all)")>> >>
  IN [configs |-> [i \in 1..(3 * n) |-> cfg(((i - 1) \div n) + 1, ls[((i - 1) % n) + 1])],
      worlds |-> SetToSeq({W([f \in 1..3 |-> ConfAt(ref[f], (f - 1) * n + q[f])],
                             [i \in 1..Len(sel) |-> R(<<S("-f"), S("f1")>> \o sel[i], Data(IF i = 6 THEN <<>> ELSE t))], <<>>) : q \in [1..3 -> 1..n]})]

\* C15: where the configuration file is found
FLocate(x) ==
  LET one(i) == <<Design1("d" , << <<"W", <<Num(i)>> >> >>, <<"W">>, <<>>)>>
      names == ConfigNames
      \* a directory with some of the four files; file i of it has number 10 * place + i
      places == <<S("given"), S("env"), S("home"), S("xdg/boxes"), S("home/.config/boxes"), S("global")>>
      file(p, i) == ConfAt(Join(places[p], names[i]), 4 * (p - 1) + i)
      dirs(p) == IF p = 4 THEN <<DirAt(S("xdg")), DirAt(places[p])>> ELSE IF p = 5 THEN <<DirAt(S("home")), DirAt(S("home/.config")), DirAt(places[p])>> ELSE <<DirAt(places[p])>>
      env(b, h, g) == [boxes |-> b, home |-> h, xdg |-> g]
      mk(args, e) == [R(args, Data(S("t") \o Nl)) EXCEPT !.env = e]
      val(v) == Some(S(v))
      \* every way to give something, existing or not
      fopts == <<<<>>, <<S("-f"), S("given")>>, <<S("-f"), S("given/boxes")>>, <<S("-f"), S("given/none")>>>>
      bopts == {None, val("env"), val("env/boxes"), val("env/none"), val("")}
      hopts == {None, val("home"), val("")}
      xopts == {None, val("xdg"), val("")}
      many == {<<f, b, h, g>> : f \in 1..4, b \in bopts, h \in hopts, g \in xopts}
      \* at most one of them is empty
      usual(z) == Cardinality({k \in 2..4 : z[k] = val("")}) <= (IF Deep THEN 3 ELSE IF z[1] = 1 THEN 1 ELSE 0)
      all == SetToSeq({z \in many : usual(z)})
      runs == [i \in 1..Len(all) |-> mk(fopts[all[i][1]], env(all[i][2], all[i][3], all[i][4]))]
      SubFs(ps, X) == LET fs == SetToSeq({<<p, i>> : p \in ps, i \in X}) IN Concat([k \in 1..Len(fs) |-> dirs(fs[k][1]) \o <<file(fs[k][1], fs[k][2])>>])
  IN Family2([i \in 1..24 |-> one(i)],
       \* in which of the places there is a file
       {W(SubFs(ps, {4}) \o SubFs(IF 6 \in ps THEN {6} ELSE {}, {3}), runs, <<>>) : ps \in (IF Deep THEN SUBSET (1..6) ELSE {ps \in SUBSET (1..6) : Cardinality(ps) \in {0, 1, 5, 6}})}
       \* which file names there are in one place
       \cup {W(SubFs({p}, X), IF Deep THEN runs ELSE <<mk(<<S("-f"), S("given")>>, Env0), mk(<<>>, env(val("env"), None, None)), mk(<<>>, env(None, val("home"), val("xdg")))>>, <<>>) : p \in 1..6, X \in SUBSET (1..4)})

\* C16: queries
FQuery(x) ==
  LET d(n, al, ts) == Box(<<n>> \o al, <<Smp, Shapes(<< <<"W", <<S("|")>> >> >>), Elastic(<<"W">>)>> \o IF ts = <<>> THEN <<>> ELSE <<Tags(ts)>>)
      cfg == <<d("m", <<"n">>, <<"a">>), d("K", <<>>, <<"b">>), d("l", <<"O", "c">>, <<"a", "b">>), d("p", <<>>, <<>>), d("q", <<>>, <<"a,c">>)>>
      terms == {"a", "b", "c", "+a", "+b", "+c", "-a", "-b", "-c", "(all)"} \cup IF Deep THEN {"+(all)", "-(all)", "", "A", "+", "a-", "a b"} ELSE {"", "+"}
      qs == SetToSeq(UNION {{<<t>> : t \in terms}, {<<t, u>> : t \in terms, u \in terms}, {<<t, u, v>> : t \in (IF Deep THEN terms ELSE {"a", "+a", "-a"}), u \in (IF Deep THEN terms ELSE {"b", "+b", "-b"}), v \in (IF Deep THEN {"a", "b", "c", "+a", "+b", "+c", "-a", "-b", "-c"} ELSE {"c", "+c", "-c"})}})
      strs == [i \in 1..Len(qs) |-> JoinSeq([k \in 1..Len(qs[i]) |-> S(qs[i][k])], S(IF i % 5 = 0 THEN " , " ELSE ","))]
      chunk == 10
  IN [configs |-> <<cfg>>,
      worlds |-> [i \in 1..((Len(strs) + chunk - 1) \div chunk) |->
                    W1(1, LET from == (i - 1) * chunk IN [k \in 1..Min2(chunk, Len(strs) - from) |-> R(Base \o <<S("-q"), strs[from + k]>>, Data(<<>>))])]]

\* C17: listings
FList(x) ==
  LET d(n, al, more) == Box(<<n>> \o al, <<Smp, Shapes(<< <<"W", <<S("|")>> >> >>), Elastic(<<"W">>)>> \o more)
      ds == <<d("b", <<"z">>, <<Tags(<<"one", "two">>)>>), d("B2", <<>>, <<Key("author", "Me")>>), d("a", <<"y", "X">>, <<Key("designer", "You"), Tags(<<"one">>)>>), d("C", <<>>, <<Key("author", "Me"), Key("designer", "Me")>>),
              d("a-1", <<>>, <<Key("indent", "text"), PadSec("all", 1), Tags(<<"two,one,three">>)>>)>>
      perms == {p \in [1..4 -> 1..5] : Cardinality({p[i] : i \in 1..4}) = 4}
      ps == SetToSeq(IF Deep THEN perms ELSE {p \in perms : p[1] < p[2] \/ p[3] < p[4]})
      first(p) == S(ToString(1))
      t == <<R(Base \o <<S("-l")>>, Data(<<>>)), R(Base \o <<S("-l"), S("-e"), S("CRLF")>>, Data(<<>>))>> \o
           [i \in 1..5 |-> R(Base \o <<S("-l"), S("-d"), ds[i].names[1]>>, Data(<<>>))]
      \* names of files in the heading, and parents
      paths == << S("x"), S("sub/some-longer-name.cfg"), <<19990, 30028>>, S("f ") \o <<228, 769>>, S("12345678901234567890123456789012345678901234567890123456789012345678901234567890") >>
      child == <<[k |-> "parent", file |-> S("cfg")], ds[1]>>
      n == Len(ps)
      l(p) == <<R(<<S("-f"), p, S("-l")>>, Data(<<>>)), R(<<S("-f"), p, S("-l"), S("--undoc")>>, Data(<<>>)), R(<<S("-f"), p, S("-l"), S("-d"), S("b")>>, Data(<<>>))>>
      dirs(p) == IF Contains(p, 47) THEN <<DirAt(S("sub"))>> ELSE <<>>
  IN [configs |-> [i \in 1..n |-> [k \in 1..4 |-> ds[ps[i][k]]]] \o <<child>> \o <<<<ds[2]>>>>,
      worlds |-> [i \in 1..n |-> W1(i, t)]
                 \o [i \in 1..Len(paths) |-> W(dirs(paths[i]) \o <<ConfAt(paths[i], 1)>>, l(paths[i]), <<>>)]
                 \o [i \in 1..Len(paths) |-> W(dirs(paths[i]) \o <<ConfAt(paths[i], n + 2)>>, l(paths[i]), <<>>)]
                 \o [i \in 1..Len(paths) |-> W(dirs(paths[i]) \o <<ConfAt(paths[i], n + 1), ConfAt(S("cfg"), 2)>>, l(paths[i]), <<>>)]]

\* C18: line terminators
FEol(x) ==
  LET ends == <<Nl, <<CR, LF>>>>
      texts == UNION {{S("a") \o e \o S(" b") \o f, S("+---+") \o e \o S("| a |") \o e \o S("+---+") \o f, S("c") \o f, e \o f} : e \in SetOf(ends), f \in SetOf(ends) \cup {<<>>}}
      eols == <<<<>>, <<S("-e"), S("LF")>>, <<S("-e"), S("CR")>>, <<S("-e"), S("CRLF")>>>>
      modes == {<<>>, <<S("-r")>>, <<S("-m")>>, <<S("-d"), S("d"), S("-m")>>, <<S("-d"), S("d"), S("-r"), S("-k"), S("false")>>, <<S("-s"), S("9x7")>>, <<S("-p"), S("v1")>>}
      cs == << <<Plain("d", <<>>)>>, <<Design1("d", << <<"W", <<S("|")>> >> >>, <<"W">>, <<PadSec("v", 1)>>)>>, <<Design1("d", << <<"N", <<S("-")>> >>, <<"E", <<S("|"), S(":")>> >> >>, <<"N", "E">>, <<>>)>> >>
      claim(b, e) == [Claim("eol", 2, b) EXCEPT !.x = e]
  IN Family2(cs, {WC(k, [i \in 1..4 |-> R(Base \o m \o eols[i], Data(t))], <<Claim("same", 1, 2), claim(3, <<CR>>), claim(4, <<CR, LF>>)>>) : k \in 1..3, m \in modes, t \in texts})

\* C19: escape sequences in any place
Seq1(str) == <<ESC>> \o S(str)
FColor(x) ==
  LET on == Seq1("[31m")
      off == Seq1("[0m")
      ins(s, i, e) == Upto(s, i) \o e \o From(s, i + 1)
      \* two sequences in the text
      two(s, e, f) == {ins(ins(s, k, f), i, e) : <<i, k>> \in {z \in (0..Len(s)) \X (0..Len(s)) : z[1] <= z[2]}}
      kinds == {Seq1(e) : e \in {"[31m", "[0m", "[m", "[@", "[2~", "[1;38;5;9m", "(B", "(0", "_", "@", "M", "[J", "[39m", "[49m", "[10m"}}
      few(s, e, f) == {ins(ins(s, 3, f), 1, e), ins(ins(s, 2, f), 2, e), ins(ins(s, Len(s), f), 0, e)}
      colored == UNION {two(S("ab c"), e, f) : e \in (IF Deep THEN {on, Seq1("(B")} ELSE {on}), f \in (IF Deep THEN {on, off, Seq1("_"), Seq1("[10m")} ELSE {off})}
                 \cup (IF Deep THEN two(S("f  g "), on, off) ELSE {})
                 \cup UNION {two(S(" d"), on, on)} \cup UNION {few(S("ab c"), e, f) : e \in kinds, f \in (IF Deep THEN {on, off, Seq1("(B"), Seq1("_"), Seq1("[@")} ELSE {off, Seq1("_")})}
      d(c) == LET m(str) == <<IF c = 0 THEN S(str) ELSE IF c = 1 THEN on \o S(str) \o off ELSE on \o S(str)>>
              IN <<Design1("d", << <<"NW", m("+")>>, <<"N", m("-")>>, <<"NE", m("+")>>, <<"E", m("|")>>, <<"SE", m("+")>>, <<"S", m("-")>>, <<"SW", m("+")>>, <<"W", m("|")>> >>, <<"N", "E", "S", "W">>, <<>>)>>
      ks(t) == IF Deep \/ Len(t) % 2 = 0 THEN 1..3 ELSE 1..2
  IN Family2(<<d(0), d(1), d(2)>>,
       UNION {{WC(k, <<R(Base \o <<S("--color")>>, Data(t \o Nl)), R(Base \o <<S("--color")>>, Data(Vis(t) \o Nl)), R(Base \o <<S("--no-color")>>, Data(t \o Nl)),
                R(Base \o <<S("-r")>>, Prev), R(Base, Data(t \o Nl)), R(Base \o <<S("-r"), S("-d"), S("d"), S("--color")>>, Prev)>>,
           <<Claim("vis", 1, 3)>> \o IF k = 1 THEN <<Claim("vis", 1, 2)>> ELSE <<>>) : k \in ks(t)} : t \in colored})

\* C20: characters of different widths
FWide(x) ==
  LET cs == {97, 19990, 252, 769, SP} \cup IF Deep THEN {128512, 65281, 12288} ELSE {}
      texts == {t \in UNION {[1..n -> cs] : n \in 1..3} : t[1] # 769}
      ds == << <<Plain("d", <<PadSec("h", 1)>>)>>, <<Design1("d", << <<"W", <<<<19990>>>> >>, <<"N", << S("-") \o <<228>> >> >>, <<"E", <<<<228>>>> >>, <<"NW", <<S("##")>> >> >>, <<"N", "E", "W">>, <<>>)>> >>
  IN Family2(ds, {W1(k, <<R(Base, Data(t \o Nl \o S("bc") \o Nl)), R(Base \o <<S("-r")>>, Prev), R(Base \o <<S("-ac")>>, Data(t \o Nl \o S("bcdef") \o Nl)), R(Base \o <<S("-m"), S("-d"), S("d")>>, Prev)>>) : k \in 1..2, t \in texts})

\* C21: every short value of an option
FValues(x) ==
  LET chars == [a |-> "hvjlcrtbHL x", p |-> "ahvtrbl019A-", s |-> "01x- +", t |-> "0129ekuE- ", i |-> "botexn", k |-> "truefals10", e |-> "CRLFcr", q |-> "a,+-(b "]
      strs(c, n) == UNION {[1..m -> SetOf(S(c))] : m \in 0..n}
      tokens == {S(v) : v \in {"hl", "hc", "hr", "vt", "vc", "vb", "jl", "jc", "jr", "l", "c", "r"}}
      vals(o) == CASE o = "a" -> strs(chars.a, 2) \cup (IF Deep THEN strs("hvjlcrtb", 3) ELSE {}) \cup {Concat(q) : q \in Seqs(tokens, 1, IF Deep THEN 3 ELSE 2)} \cup {S("hcvc"), S("hcjl"), S("vbjr"), S("hlvtjc"), S("hcvcj"), S("cj"), S("lvbjc"), S("chl"), S("hrvcjcx"), S("rvb"), S("cvt"), S("lvc"), S("hx"), S("VBHR"), S("LjR")}
                   [] o = "p" -> strs(chars.p, 2) \cup (IF Deep THEN strs("ahvtrbl02", 3) ELSE {}) \cup {S("l1r2"), S("a1l0"), S("H2t1"), S("V1B2"), S("h2v1t0"), S("a12"), S("l1x"), S("L3"), S("R2"), S("T1"), S("A1"), S("l1 r2"), S("l-1"), S("t1,b1"), S("x1"), S("a1a2")}
                   [] o = "s" -> strs(IF Deep THEN "014x- +" ELSE chars.s, 3) \cup {S("12x5"), S("10x"), S("x4"), S("-1x5"), S("10x-3"), S("9x9x9"), S("9X9"), S("010x5")}
                   [] o = "t" -> strs(chars.t, 2) \cup (IF Deep THEN strs("01eku", 3) ELSE {}) \cup {S("8e"), S("100"), S("101"), S("8ee"), S("4K"), S("4U"), S("16E"), S("8x"), S("100u"), S("99k"), S("+4"), S("4 e")}
                   [] o = "i" -> {S(v) : v \in {"b", "bo", "box", "Box", "BOX", "boxx", "t", "te", "tex", "text", "TEXT", "texts", "n", "no", "non", "none", "None", "nones", "x", "", "bx", "tx"}}
                   [] o = "k" -> {S(v) : v \in {"true", "TRUE", "True", "tru", "t", "false", "False", "FALSE", "f", "1", "0", "yes", "no", "auto", "", "truee"}}
                   [] o = "e" -> {S(v) : v \in {"LF", "CR", "CRLF", "lf", "cr", "Crlf", "LFCR", "", "L", "CRL", "CRLFX"}}
                   [] OTHER -> {<<>>}
      opts == <<"a", "p", "s", "t", "i", "k", "e">>
      text == <<TAB>> \o S(" abc") \o Nl \o <<TAB>> \o S("d") \o Nl
      boxed == S("+-----+") \o Nl \o S("|     |") \o Nl \o S("| abc |") \o Nl \o S("+-----+") \o Nl
      extra(o) == CASE o = "a" -> <<S("-s"), S("14x6")>> [] OTHER -> <<>>
      \* all pairs of an option and a value
      pairs == SetToSeq(UNION {{<<opts[i], v>> : v \in vals(opts[i])} : i \in 1..Len(opts)})
      mk(q) == R(Base \o extra(q[1]) \o (IF q[1] = "k" THEN <<S("-r")>> ELSE <<>>) \o (IF Len(q[2]) % 2 = 0 THEN <<S("-") \o S(q[1]), q[2]>> ELSE <<S("-") \o S(q[1]) \o q[2]>>),
                  Data(IF q[1] = "k" THEN boxed ELSE text))
      chunk == 12
  IN [configs |-> << <<Plain("d", <<PadSec("left", 1), PadSec("top", 1)>>)>> >>,
      worlds |-> [i \in 1..((Len(pairs) + chunk - 1) \div chunk) |->
                    W1(1, LET from == (i - 1) * chunk IN [k \in 1..Min2(chunk, Len(pairs) - from) |-> mk(pairs[from + k])])]]

\* C21: options in any order
FOrders(x) ==
  LET items == << <<S("-r")>>, <<S("-m")>>, <<S("-k"), S("true")>>, <<S("--no-kill-blank")>>, <<S("-d"), S("two")>>, <<S("-l")>>, <<S("-pl3")>>, <<S("--padding=a1")>>, <<S("-s20")>>, <<S("--size"), S("x9")>>,
                  <<S("-ac")>>, <<S("--align=jr")>>, <<S("-q"), S("(all)")>>, <<S("-c"), S("%%")>>, <<S("--indent"), S("text")>>, <<S("-")>>, <<S("--no-color")>>, <<S("-mr")>>, <<S("-rk"), S("false")>>, <<S("--kill-blank=true")>>,
                  <<S("-t4")>>, <<S("--tabs=2u")>>, <<S("--remov")>>, <<S("--")>>, <<S("-x")>>, <<S("-i"), S("none")>>, <<S("--eol=CRLF")>>, <<S("-d")>>, <<S("--mend")>>, <<S("--kill-blank")>>, <<S("--undoc")>>, <<S("-h")>> >>
      n == Len(items)
      kills == {k \in 1..n : items[k][1] \in {S("-k"), S("--no-kill-blank"), S("--kill-blank"), S("--kill-blank=true"), S("-rk")}}
      text == S("#====#") \o Nl \o S("#    #") \o Nl \o S("#") \o <<TAB>> \o S("ab #") \o Nl \o S("#    #") \o Nl \o S("#====#") \o Nl
      key == IF Deep THEN {<<a, b, c>> : a \in 1..n, b \in 1..n, c \in {3, 4, 5, 6, 7, 11, 14, 21, 29}} ELSE {<<a, b, 0>> : a \in 1..n, b \in 1..n} \cup {<<1, a, b>> : a \in kills, b \in kills} \cup {<<2, a, b>> : a \in kills, b \in kills}
      args(q) == items[q[1]] \o items[q[2]] \o IF q[3] = 0 THEN <<>> ELSE items[q[3]]
      keys == SetToSeq(key)
      chunk == 12
  IN [configs |-> << <<Plain("one", <<>>), Frame("two", "#=####=#", <<PadSec("left", 1)>>)>> >>,
      worlds |-> [i \in 1..((Len(keys) + chunk - 1) \div chunk) |->
                    W1(1, LET from == (i - 1) * chunk IN [k \in 1..Min2(chunk, Len(keys) - from) |-> R(Base \o args(keys[from + k]), Data(text))])]]

\* C22: rules
Lit(str) == [t |-> "cat", es |-> [i \in 1..Len(S(str)) |-> [t |-> "lit", c |-> S(str)[i]]]]
StrTo(str) == << [t |-> "str", s |-> S(str)] >>
FRules(x) ==
  LET any == [t |-> "any"]
      rule(kind, glob, src, pat, sub, with) == [k |-> kind, glob |-> glob, search |-> S(src), subst |-> S(sub), pat |-> pat, with |-> with]
      pats == << <<"a", Lit("a")>>, <<"b*", [t |-> "rep", e |-> [t |-> "lit", c |-> 98], min |-> 0, max |-> 99, greedy |-> TRUE]>>, <<"(a)(b)", [t |-> "cat", es |-> << [t |-> "grp", n |-> 1, e |-> Lit("a")], [t |-> "grp", n |-> 2, e |-> Lit("b")] >>]>>,
                 <<"^", [t |-> "bol"]>>, <<"$", [t |-> "eol"]>>, <<"a|ab", [t |-> "alt", es |-> <<Lit("a"), Lit("ab")>>]>>, <<"b.", [t |-> "cat", es |-> <<Lit("b"), any>>]>> >>
      subs == << <<"", <<>>>>, <<"a", StrTo("a")>>, <<"XY", StrTo("XY")>>, <<"<$0>", StrTo("<") \o << [t |-> "ref", n |-> 0] >> \o StrTo(">")>> >>
      one(kind, g, p, s) == rule(kind, g, pats[p][1], pats[p][2], subs[s][1], subs[s][2])
      keys == SetToSeq({<<g, p, s>> : g \in BOOLEAN, p \in 1..Len(pats), s \in 1..Len(subs)})
      two == IF Deep THEN SetToSeq({<<a, b>> : a \in 1..Len(keys), b \in 1..Len(keys)}) ELSE SetToSeq({z \in (1..Len(keys)) \X (1..Len(keys)) : (z[1] * 7 + z[2]) % 11 = 0})
      of(kind, q) == one(kind, q[1], q[2], q[3])
      cfg(q) == <<Plain("d", <<of("replace", keys[q[1]]), of("reverse", keys[q[2]]), of("replace", keys[q[2]]), of("reverse", keys[q[1]])>>)>>
      text == S("ab") \o Nl \o Nl \o S("bba a") \o Nl
  IN [configs |-> [i \in 1..Len(two) |-> cfg(two[i])],
      worlds |-> [i \in 1..Len(two) |-> W1(i, <<R(Base, Data(text)), R(Base \o <<S("-r")>>, Prev), R(Base \o <<S("-d"), S("d"), S("-r")>>, Data(text)), R(Base \o <<S("-d"), S("d"), S("-m")>>, Data(text))>>)]]

\* C23: designs given on the command line
FCreate(x) ==
  LET good == <<S("#"), S("//"), S(" *"), S("a"), S("- "), <<228>>, <<19990>>, <<ESC>> \o S("[1m*")>>
      texts == {S("a") \o Nl, S(" a") \o Nl \o Nl \o S("   b") \o Nl, Nl, <<>>, S("# a") \o Nl \o S("#b") \o Nl, S("// x") \o Nl \o S("y") \o Nl, S(" * q")}
      cfg(s) == <<Design1("d", << <<"W", <<s>> >> >>, <<"W">>, <<PadSec("left", 1)>>)>>
      modes == {<<>>, <<S("-r")>>, <<S("-m")>>, <<S("-s"), S("12x4")>>, <<S("-ac")>>, <<S("-pl3")>>, <<S("-i"), S("text")>>}
  IN Family2([i \in 1..Len(good) |-> cfg(good[i])],
       {WC(k, <<R(Base \o <<S("-c"), good[k]>> \o m, Data(t)), R(Base \o <<S("-d"), S("d")>> \o m, Data(t))>>, <<Claim("same", 1, 2)>>) : k \in 1..Len(good), m \in modes, t \in texts}
       \cup {W1(1, <<R(Base \o <<S("-c"), c>> \o m, Data(S("a") \o Nl))>>) : c \in {<<>>, <<1>>, <<769>>, <<ESC>> \o S("[1m")}, m \in modes})

\* C24: files, streams, failures
FFiles(x) ==
  LET ins == <<<<>>, <<S("-")>>, <<S("in")>>, <<S("sub/in")>>, <<S("none")>>, <<S("sub")>>, <<S("none/in")>>, <<S("empty")>>>>
      outs == <<<<>>, <<S("-")>>, <<S("new")>>, <<S("old")>>, <<S("sub/new")>>, <<S("sub")>>, <<S("none/new")>>, <<S("new"), S("more")>>>>
      acts == {<<>>, <<S("-r")>>, <<S("-m"), S("-d"), S("d")>>, <<S("-l")>>, <<S("-q"), S("(all)")>>, <<S("-q"), S("(all)"), S("-r")>>, <<S("-l"), S("-m")>>, <<S("-d"), S("unknown")>>, <<S("-s"), S("bad")>>} \cup IF Deep THEN {<<S("-r"), S("-d"), S("d")>>, <<S("-f"), S("none")>>, <<S("-q"), S("zzz")>>, <<S("-c"), S("x")>>} ELSE {}
      t == S("hello") \o Nl
      fs == <<ConfAt(S("cfg"), 1), DirAt(S("sub")), FileAt(S("in"), t), FileAt(S("old"), S("some older and longer content") \o Nl), FileAt(S("sub/in"), S("+-+") \o Nl \o S("|a|") \o Nl \o S("+-+") \o Nl), FileAt(S("empty"), <<>>)>>
      sinks == {"pipe", "full"}
  IN Family2(<< <<Plain("d", <<>>)>> >>,
       {W(fs, <<[R(Base \o a \o (IF ins[i] = <<>> /\ outs[o] # <<>> THEN <<S("-")>> ELSE ins[i]) \o outs[o], Data(S("from stdin") \o Nl)) EXCEPT !.sink = z]>>, <<>>)
         : i \in 1..Len(ins), o \in 1..Len(outs), a \in acts, z \in sinks})

\* C24: one file for input and output
FSame(x) ==
  LET box == S("+-+") \o Nl \o S("|a|") \o Nl \o S("+-+") \o Nl
      fs == <<ConfAt(S("cfg"), 1), DirAt(S("sub")), FileAt(S("in"), S("hello") \o Nl), FileAt(S("sub/in"), box)>>
  IN Family2(<< <<Plain("d", <<>>)>> >>,
       {W(fs, <<R(Base \o a \o <<f, S("out")>>, Data(<<>>)), R(Base \o a \o <<f, f>>, Data(<<>>))>>, <<>>) : a \in {<<>>, <<S("-r")>>, <<S("-l")>>, <<S("-q"), S("(all)")>>}, f \in {S("in"), S("sub/in")}})

\* C27: encodings
FEncodings(x) ==
  LET cs == {97, 228, 255, 223}
      encs == {"ISO-8859-1", "UTF-8"} \cup IF Deep THEN {"ISO-8859-15", "US-ASCII"} ELSE {}
      texts == {t \in UNION {[1..n -> cs] : n \in 1..3} : TRUE}
      fit(t, e) == \A i \in 1..Len(t) : Representable(t[i], S(e))
      modes == {<<>>, <<S("-r"), S("-d"), S("d")>>, <<S("-ac"), S("-s9x4")>>}
  IN Family2(<< <<Plain("d", <<>>)>> >>,
       {WC(1, <<R(Base \o m \o <<S("-n"), S(q[2])>>, Data(q[1] \o Nl \o S("bc") \o Nl)), R(Base \o m, Data(q[1] \o Nl \o S("bc") \o Nl))>>,
            <<[Claim("enc", 1, 2) EXCEPT !.s = S(q[2])]>>) : m \in modes, q \in {z \in texts \X encs : fit(z[1], z[2])}})

\* C09, C10: a box that was drawn, damaged in one place (or two)
FDamage(x) ==
  LET box == << S("  +----+"), S("  | ab |"), S("  | c  |"), S("  +----+") >>
      cmt == << S("/*******"), S(" * ab c"), S(" *"), S(" * d"), S(" *******/") >>
      ins(s, i, e) == Upto(s, i) \o e \o From(s, i + 1)
      del(s, i, n) == Upto(s, i - 1) \o From(s, i + n)
      line(s) == UNION {{ins(s, i, S("x")), ins(s, i, S(" "))} : i \in 0..Len(s)} \cup UNION {{del(s, i, 1), del(s, i, 2), del(ins(s, i, S("x")), i, 1), del(ins(s, i, S(" ")), i, 1)} : i \in 1..Len(s)} \cup {<<>>, s \o S(" y")}
      once(b) == UNION {{[b EXCEPT ![i] = l] : l \in line(b[i])} \cup {Upto(b, i - 1) \o From(b, i + 1), Upto(b, i) \o From(b, i)} : i \in 1..Len(b)}
      some == {[box EXCEPT ![1] = <<>>], [box EXCEPT ![2] = S("  |ab |")], Tail(box), [box EXCEPT ![4] = S("  +--")], [box EXCEPT ![3] = S("   c  |")]}
      texts(k) == LET b == IF k = 1 THEN box ELSE cmt IN once(b) \cup IF Deep /\ k = 1 THEN UNION {once(c) : c \in some} ELSE {}
  IN Family2(<< <<Plain("d", <<PadSec("h", 1)>>)>>, RoundDesigns[4] >>,
       UNION {{WC(k, <<R(Base \o <<S("-d"), S("d"), S("-r"), S("-k"), S("false")>>, Data(TextOf(t))), R(Base \o <<S("-d"), S("d")>>, Prev), R(Base \o <<S("-d"), S("d"), S("-m")>>, Data(TextOf(t))), R(Base \o <<S("-m")>>, Data(TextOf(t))), R(Base \o <<S("-r")>>, Data(TextOf(t)))>>,
                  IF k = 1 THEN <<Claim("same", 3, 2), [Claim("kept", 1, 0) EXCEPT !.s = S("+-|")]>> ELSE <<>>) : t \in texts(k)} : k \in 1..2})

\* C12: blank lines at the ends of the text
FBlank(x) ==
  LET b(n, l) == [i \in 1..n |-> l]
      texts == {TextOf(b(n, l) \o <<S("a")>> \o b(m, <<>>) \o <<S(" c")>> \o b(k, <<>>)) : n \in 0..2, m \in 0..1, k \in 0..2, l \in {<<>>, S("  "), <<12288>>, <<TAB, SP>>} \cup IF Deep THEN {<<160>>, <<8195, SP>>} ELSE {}}
      ps == << <<>>, <<PadSec("v", 1)>>, <<PadSec("top", 2)>>, <<PadSec("bottom", 1), PadSec("left", 2)>> >>
      design(q, more) == CASE q = 1 -> Plain("d", more)
                           [] q = 2 -> Design1("d", << <<"W", <<S("#")>> >>, <<"E", <<S("#")>> >> >>, <<"W", "E">>, more)
                           [] q = 3 -> Design1("d", << <<"W", <<S("#")>> >>, <<"N", <<S("-")>> >> >>, <<"W", "N">>, more)
                           [] q = 4 -> Design1("d", << <<"S", <<S("-")>> >>, <<"E", <<S("|")>> >> >>, <<"S", "E">>, more)
      cs == [i \in 1..16 |-> <<design(((i - 1) % 4) + 1, ps[((i - 1) \div 4) + 1])>>]
      kill == <<<<>>, <<S("-k"), S("true")>>, <<S("--no-kill-blank")>>, <<S("-pt1")>> >>
      draw == R(Base, Data(<<>>))
      runs(t, m) == Concat([i \in 1..4 |-> <<[draw EXCEPT !.stdin = Data(t)], R(Base \o <<S("-d"), S("d"), m>> \o kill[i], Prev)>>])
  IN Family2(cs, {W1(i, runs(t, m)) : i \in 1..16, t \in (IF Deep THEN texts ELSE {t \in texts : Len(t) % 3 = 1 \/ (Contains(t, 12288) /\ Len(t) % 3 = 0)}), m \in (IF Deep THEN {S("-r"), S("-m")} ELSE {S("-r")})})

\* C13, C26: all sequences of sections, and words for padding
FSections(x) ==
  LET secs == << Smp, Shapes(<< <<"W", <<S("|")>> >> >>), Elastic(<<"W">>), PadSec("left", 2), [Smp EXCEPT !.lines = <<S(" second")>>], Shapes(<< <<"E", <<S("!")>> >> >>), Key("indent", "text") >>
      n == IF Deep THEN 7 ELSE 5
      orders == SetToSeq(Seqs(1..n, 2, 4))
      words == {"all", "horizontal", "vertical", "top", "right", "left", "bottom"}
      prefixes == UNION {{SubSeq(w, 1, k) : k \in 1..Len(w)} : w \in words}
      tested == SetToSeq((prefixes \ {"to"}) \cup  \* (this is another word of the language)
                {w \o "x" : w \in prefixes} \cup {"ALL", "Hor", "bOT", "x", "non", "box"})
      ends == <<"a", "A", "ax", "b", "aa", "alias", "ALIAS">>
      good == <<secs[1], secs[2], secs[3]>>
      b == Plain("b", <<>>)
      cfgs == [i \in 1..Len(orders) |-> <<Box(<<"a", "alias">>, [k \in 1..Len(orders[i]) |-> secs[orders[i][k]]]), b>>]
              \o [i \in 1..Len(tested) |-> <<Design1("a", << <<"W", <<S("|")>> >>, <<"N", <<S("-")>> >>, <<"E", <<S("|")>> >>, <<"S", <<S("-")>> >> >>, <<"W", "N", "E", "S">>, <<PadSec(tested[i], 2)>>), b>>]
              \o [i \in 1..Len(ends) |-> <<[Box(<<"a", "alias">>, good) EXCEPT !.end = S(ends[i])], b>>]
      t == Data(S("hi") \o Nl)
  IN [configs |-> cfgs,
      worlds |-> [i \in 1..Len(cfgs) |-> W1(i, <<R(Base, t), R(Base \o <<S("-d"), S("alias")>>, t), R(Base \o <<S("-d"), S("b")>>, t), R(Base \o <<S("-l")>>, Data(<<>>)), R(Base \o <<S("-l"), S("-d"), S("a")>>, Data(<<>>))>>)]]

\* C14: names and aliases in a file
FNames(x) ==
  LET names == {"a", "A", "b"}
      aliases == {"", "a", "b", "c", "B"}
      one == SetToSeq(names \X aliases)
      ks == SetToSeq(IF Deep THEN [1..3 -> 1..Len(one)] ELSE [1..2 -> 1..Len(one)])
      mark(i) == S(ToString(i))
      d(q, i) == Box(IF q[2] = "" THEN <<q[1]>> ELSE <<q[1], q[2]>>, <<Smp, Shapes(<< <<"W", <<mark(i)>> >> >>), Elastic(<<"W">>)>>)
      t == Data(S("t") \o Nl)
  IN [configs |-> [i \in 1..Len(ks) |-> [k \in 1..Len(ks[i]) |-> d(one[ks[i][k]], k)] \o <<d(<<"z", "">>, 9)>>],
      worlds |-> [i \in 1..Len(ks) |-> W1(i, <<R(Base, t), R(Base \o <<S("-d"), S("a")>>, t), R(Base \o <<S("-d"), S("B")>>, t), R(Base \o <<S("-d"), S("C")>>, t), R(Base \o <<S("-d"), S("z")>>, t), R(Base \o <<S("-q"), S("(all)")>>, Data(<<>>)), R(Base \o <<S("-l")>>, Data(<<>>))>>)]]

Fam ==
  LET f == IOEnv.FAMILY
  IN CASE f = "sides" -> FSides(0) [] f = "size" -> FSize(0) [] f = "pad" -> FPad(0) [] f = "align" -> FAlign(0) [] f = "indent" -> FIndent(0)
       [] f = "tabs" -> FTabs(0) [] f = "tiny" -> FTiny(0) [] f = "round" -> FRound(0) [] f = "remove" -> FRemove(0) [] f = "detect" -> FDetect(0)
       [] f = "elastic" -> FElastic(0) [] f = "parents" -> FParents(0) [] f = "locate" -> FLocate(0) [] f = "query" -> FQuery(0) [] f = "list" -> FList(0)
       [] f = "eol" -> FEol(0) [] f = "color" -> FColor(0) [] f = "wide" -> FWide(0) [] f = "values" -> FValues(0) [] f = "orders" -> FOrders(0)
       [] f = "rules" -> FRules(0) [] f = "create" -> FCreate(0) [] f = "files" -> FFiles(0) [] f = "same" -> FSame(0) [] f = "damage" -> FDamage(0) [] f = "blank" -> FBlank(0) [] f = "sections" -> FSections(0) [] f = "names" -> FNames(0)
       [] f = "encodings" -> FEncodings(0)
MCWorlds == Fam.worlds
MCConfigs == Fam.configs
MCSubstitutes == <<>>
ASSUME JsonSerialize(IOEnv.OUT, [worlds |-> Worlds, configs |-> Configs])

ClaimsHold == pc = "end" => BrokenClaims(Done, SpecFile) = <<>>
Tell == pc = "end" => PrintT("@@" \o ToJson([case |-> case, hist |-> hist, disk |-> disk]))
=============================================================================
