------------------------------ MODULE CmdLine ------------------------------
(***************************************************************************)
(* The command line: arguments are processed one by one, options in the    *)
(* order given, operands (file names) being collected on the way.          *)
(*                                                                         *)
(* The state of processing is [args, rest, o, operands, st]:               *)
(*   rest      arguments not processed yet                                 *)
(*   o         the options so far                                          *)
(*   operands  file names so far                                           *)
(*   st        "run", "done", "help", "version" or "error"                 *)
(***************************************************************************)
EXTENDS Chars, Ascii, FiniteSets

None == [set |-> FALSE, val |-> <<>>]
Some(v) == [set |-> TRUE, val |-> v]

DefaultOptions ==
  [ halign |-> "l", valign |-> "t", justify |-> "", pad |-> <<-1, -1, -1, -1>>,
    reqw |-> 0, reqh |-> 0, indentmode |-> "", tabexp |-> "e", tabstop |-> 8,
    eol |-> <<LF>>, color |-> "auto", killblank |-> -1, remove |-> FALSE, mend |-> FALSE,
    list |-> FALSE, undoc |-> FALSE, query |-> None, design |-> None, create |-> None,
    config |-> None, encoding |-> None ]

ArgInit(args) == [rest |-> args, o |-> DefaultOptions, operands |-> <<>>, st |-> "run"]

(******************************* numbers **********************************)
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE Digits(_, _, _)
Digits(s, i, acc) == IF i > Len(s) \/ ~IsDigit(s[i]) THEN <<acc, i>> ELSE Digits(s, i + 1, acc * 10 + s[i] - 48)
\* Like strtol: <<value, position behind>>; position i if there is no number.
StrToL(s, i) ==
  LET j0 == CHOOSE j \in i..(Len(s) + 1) : (j = Len(s) + 1 \/ ~(s[j] = SP \/ (s[j] >= 9 /\ s[j] <= 13)))
                                           /\ \A k \in i..(j - 1) : s[k] = SP \/ (s[k] >= 9 /\ s[k] <= 13)
      neg == CharAt(s, j0) = 45
      j1 == IF CharAt(s, j0) \in {43, 45} THEN j0 + 1 ELSE j0
      d  == Digits(s, j1, 0)
  IN IF d[2] = j1 THEN <<0, i>> ELSE <<IF neg THEN -d[1] ELSE d[1], d[2]>>

(******************************* values ***********************************)
\* Every value parser yields [ok, o].
Bad == [ok |-> FALSE]
Ok(o) == [ok |-> TRUE, o |-> o]
ch(str) == S(str)[1]

RECURSIVE AlignFrom(_, _, _)
AlignFrom(o, s, i) ==
  IF i > Len(s) THEN Ok(o)
  ELSE LET c == Lower(s[i])
           n == Lower(CharAt(s, i + 1))
           last == i = Len(s)
           name(x) == CASE x = ch("l") -> "l" [] x = ch("c") -> "c" [] x = ch("r") -> "r"
                        [] x = ch("t") -> "t" [] x = ch("b") -> "b"
       IN CASE c \in {ch("l"), ch("c"), ch("r")} ->
                 AlignFrom([o EXCEPT !.justify = name(c), !.halign = name(c), !.valign = "c"], s, i + 1)
            [] last -> Bad
            [] c = ch("h") -> IF n \in {ch("l"), ch("c"), ch("r")}
                              THEN AlignFrom([o EXCEPT !.halign = name(n)], s, i + 2) ELSE Bad
            [] c = ch("v") -> IF n \in {ch("t"), ch("c"), ch("b")}
                              THEN AlignFrom([o EXCEPT !.valign = name(n)], s, i + 2) ELSE Bad
            [] c = ch("j") -> IF n \in {ch("l"), ch("c"), ch("r")}
                              THEN AlignFrom([o EXCEPT !.justify = name(n)], s, i + 2) ELSE Bad
            [] OTHER -> Bad
Align(o, s) == IF s = <<>> THEN Bad ELSE AlignFrom(o, s, 1)

AreaSides(c) ==
  CASE c = ch("a") -> {1, 2, 3, 4} [] c = ch("h") -> {2, 4} [] c = ch("v") -> {1, 3}
    [] c = ch("t") -> {1} [] c = ch("r") -> {2} [] c = ch("b") -> {3} [] c = ch("l") -> {4} [] OTHER -> {}
RECURSIVE PaddingFrom(_, _, _)
PaddingFrom(o, s, i) ==
  IF i > Len(s) THEN Ok(o)
  ELSE IF i = Len(s) THEN Bad
  ELSE LET n == StrToL(s, i + 1)
           sides == AreaSides(Lower(s[i]))
       IN IF n[1] < 0 \/ sides = {} THEN Bad
          ELSE PaddingFrom([o EXCEPT !.pad = [k \in 1..4 |-> IF k \in sides THEN n[1] ELSE o.pad[k]]], s, n[2])
Padding(o, s) == IF s = <<>> THEN Bad ELSE PaddingFrom(o, s, 1)

Size(o, s) ==
  LET lx == {i \in 1..Len(s) : s[i] = ch("x")}
      ux == {i \in 1..Len(s) : s[i] = ch("X")}
      p  == IF lx # {} THEN MinOf(lx) ELSE IF ux # {} THEN MinOf(ux) ELSE 0
      w  == IF p = 1 THEN o.reqw ELSE StrToL(IF p = 0 THEN s ELSE Upto(s, p - 1), 1)[1]
      h  == IF p = 0 THEN o.reqh ELSE StrToL(s, p + 1)[1]
  IN IF (w = 0 /\ h = 0) \/ w < 0 \/ h < 0 THEN Bad ELSE Ok([o EXCEPT !.reqw = w, !.reqh = h])

Tabs(o, s) ==
  LET n == StrToL(s, 1)
      r == From(s, n[2])
      m == IF r = <<>> THEN o.tabexp
           ELSE IF Len(r) > 1 THEN "" ELSE CASE Lower(r[1]) = ch("e") -> "e" [] Lower(r[1]) = ch("k") -> "k"
                                               [] Lower(r[1]) = ch("u") -> "u" [] OTHER -> ""
  IN IF n[1] < 1 \/ n[1] > 16 \/ m = "" THEN Bad ELSE Ok([o EXCEPT !.tabstop = n[1], !.tabexp = m])

Eol(o, s) == CASE LowerS(s) = S("crlf") -> Ok([o EXCEPT !.eol = <<CR, LF>>])
               [] LowerS(s) = S("lf") -> Ok([o EXCEPT !.eol = <<LF>>])
               [] LowerS(s) = S("cr") -> Ok([o EXCEPT !.eol = <<CR>>])
               [] OTHER -> Bad
Indent(o, s) == CASE StartsWith(S("box"), LowerS(s)) -> Ok([o EXCEPT !.indentmode = "b"])
                  [] StartsWith(S("text"), LowerS(s)) -> Ok([o EXCEPT !.indentmode = "t"])
                  [] StartsWith(S("none"), LowerS(s)) -> Ok([o EXCEPT !.indentmode = "n"])
                  [] OTHER -> Bad
KillBlankSet(o, v) == IF o.killblank # -1 THEN o ELSE [o EXCEPT !.killblank = v]
KillBlank(o, s) ==
  CASE o.killblank # -1 -> Ok(o)
    [] LowerS(s) \in {S("on"), S("yes"), S("true"), S("1"), S("t")} -> Ok(KillBlankSet(o, 1))
    [] LowerS(s) \in {S("off"), S("no"), S("false"), S("0"), S("f")} -> Ok(KillBlankSet(o, 0))
    [] OTHER -> Bad

(******************************* tag queries *******************************)
IsTagChar(c) == (c >= 97 /\ c <= 122) \/ IsDigit(c) \/ c = 45
\* lower case letters, digits and single hyphens between them, starting with a letter, but not with "none"
IsTag(s) == /\ s # <<>> /\ \A i \in 1..Len(s) : IsTagChar(s[i])
            /\ ~IsDigit(s[1]) /\ s[1] # 45 /\ s[Len(s)] # 45
            /\ \A i \in 2..Len(s) : ~(s[i] = 45 /\ s[i-1] = 45)
            /\ ~StartsWith(s, S("none"))
QueryAll == S("(all)")
TrimBlanks(s) ==
  LET nb == {i \in 1..Len(s) : s[i] \notin {SP, TAB}}
  IN IF nb = {} THEN <<>> ELSE SubSeq(s, MinOf(nb), MaxOf(nb))
RECURSIVE SplitAt(_, _)
SplitAt(s, sep) ==
  LET ps == {i \in 1..Len(s) : s[i] = sep}
  IN IF ps = {} THEN <<s>> ELSE <<Upto(s, MinOf(ps) - 1)>> \o SplitAt(From(s, MinOf(ps) + 1), sep)
Sign(t) == IF t[1] = ch("+") THEN "+" ELSE IF t[1] = ch("-") THEN "-" ELSE ""
RawTag(t) == IF Sign(t) = "" THEN t ELSE Tail(t)
\* A query is a sequence of [sign, tag].
Query(o, s) ==
  LET terms == SelectSeq([i \in 1..Len(SplitAt(s, ch(","))) |-> TrimBlanks(SplitAt(s, ch(","))[i])],
                         LAMBDA t : t # <<>>)
      q == [i \in 1..Len(terms) |-> [sign |-> Sign(terms[i]), tag |-> RawTag(terms[i])]]
  IN IF \/ terms = <<>>
        \/ \E i \in 1..Len(q) : ~(IsTag(q[i].tag) \/ q[i].tag = QueryAll)
        \/ \E i, j \in 1..Len(q) : i < j /\ EqNoCase(q[i].tag, q[j].tag)
     THEN Bad
     ELSE Ok([o EXCEPT !.query = Some(IF \A i \in 1..Len(q) : q[i].sign = "-"
                                      THEN Append(q, [sign |-> "", tag |-> QueryAll]) ELSE q)])

(******************************* options ***********************************)
LongNames ==
  << <<S("align"), "a">>, <<S("create"), "c">>, <<S("color"), "color">>, <<S("no-color"), "no-color">>,
     <<S("design"), "d">>, <<S("eol"), "e">>, <<S("config"), "f">>, <<S("help"), "h">>, <<S("indent"), "i">>,
     <<S("kill-blank"), "kill">>, <<S("no-kill-blank"), "no-kill">>, <<S("list"), "l">>, <<S("mend"), "m">>,
     <<S("encoding"), "n">>, <<S("padding"), "p">>, <<S("tag-query"), "q">>, <<S("remove"), "r">>,
     <<S("size"), "s">>, <<S("tabs"), "t">>, <<S("version"), "v">>, <<S("extra"), "x">> >>
ShortNames ==
  << <<ch("a"), "a">>, <<ch("c"), "c">>, <<ch("d"), "d">>, <<ch("e"), "e">>, <<ch("f"), "f">>, <<ch("h"), "h">>,
     <<ch("i"), "i">>, <<ch("k"), "k">>, <<ch("l"), "l">>, <<ch("m"), "m">>, <<ch("n"), "n">>, <<ch("p"), "p">>,
     <<ch("q"), "q">>, <<ch("r"), "r">>, <<ch("s"), "s">>, <<ch("t"), "t">>, <<ch("v"), "v">>, <<ch("x"), "x">> >>
WithValue == {"a", "c", "d", "e", "f", "i", "k", "n", "p", "q", "s", "t", "x"}

Undoc == S("(undoc)")
\* The effect of one option; val is <<>> for options without value.
SetOption(o, opt, val) ==
  CASE opt = "a" -> Align(o, val)
    [] opt = "c" -> IF val = <<>> THEN Bad ELSE Ok([o EXCEPT !.create = Some(val)])
    [] opt = "d" -> Ok([o EXCEPT !.design = Some(val)])
    [] opt = "e" -> Eol(o, val)
    [] opt = "f" -> Ok([o EXCEPT !.config = Some(val)])
    [] opt = "i" -> Indent(o, val)
    [] opt = "k" -> KillBlank(o, val)
    [] opt = "kill" -> Ok(KillBlankSet(o, 1))
    [] opt = "no-kill" -> Ok(KillBlankSet(o, 0))
    [] opt = "l" -> Ok([o EXCEPT !.list = TRUE])
    [] opt = "m" -> Ok([o EXCEPT !.mend = TRUE, !.remove = TRUE, !.killblank = 0])
    [] opt = "n" -> Ok([o EXCEPT !.encoding = Some(val)])
    [] opt = "p" -> Padding(o, val)
    [] opt = "q" -> Query(o, val)
    [] opt = "r" -> Ok([o EXCEPT !.remove = TRUE])
    [] opt = "s" -> Size(o, val)
    [] opt = "t" -> Tabs(o, val)
    [] opt = "x" -> IF StartsWith(val, Undoc) THEN Ok([o EXCEPT !.undoc = TRUE]) ELSE IF o.undoc THEN Ok(o) ELSE Bad
    [] opt = "color" -> Ok([o EXCEPT !.color = "yes"])
    [] opt = "no-color" -> Ok([o EXCEPT !.color = "no"])

ArgError(a) == [a EXCEPT !.st = "error"]
Apply(a, opt, val, rest) ==
  CASE opt = "h" -> [a EXCEPT !.st = "help"]
    [] opt = "v" -> [a EXCEPT !.st = "version"]
    [] OTHER -> LET r == SetOption(a.o, opt, val)
                IN IF r.ok THEN [a EXCEPT !.o = r.o, !.rest = rest] ELSE ArgError(a)

LongOption(a, word, rest) ==
  LET eqs  == {i \in 1..Len(word) : word[i] = ch("=")}
      name == IF eqs = {} THEN word ELSE Upto(word, MinOf(eqs) - 1)
      exact == {i \in 1..Len(LongNames) : LongNames[i][1] = name}
      cand == IF exact # {} THEN exact ELSE {i \in 1..Len(LongNames) : StartsWith(LongNames[i][1], name)}
  IN IF Cardinality(cand) # 1 THEN ArgError(a)
     ELSE LET opt == LongNames[CHOOSE i \in cand : TRUE][2]
          IN IF opt \notin WithValue
             THEN (IF eqs # {} THEN ArgError(a) ELSE Apply(a, opt, <<>>, rest))
             ELSE IF eqs # {} THEN Apply(a, opt, From(word, MinOf(eqs) + 1), rest)
             ELSE IF rest = <<>> THEN ArgError(a)
             ELSE Apply(a, opt, Head(rest), Tail(rest))

\* The first option of a group of short options; the others stay behind.
ShortOption(a, word, rest) ==
  LET cand == {i \in 1..Len(ShortNames) : ShortNames[i][1] = word[1]}
  IN IF cand = {} THEN ArgError(a)
     ELSE LET opt == ShortNames[CHOOSE i \in cand : TRUE][2]
          IN IF opt \notin WithValue
             THEN Apply(a, opt, <<>>, IF Len(word) > 1 THEN <<S("-") \o Tail(word)>> \o rest ELSE rest)
             ELSE IF Len(word) > 1 THEN Apply(a, opt, Tail(word), rest)
             ELSE IF rest = <<>> THEN ArgError(a)
             ELSE Apply(a, opt, Head(rest), Tail(rest))

ArgStep(a) ==
  IF a.rest = <<>> THEN [a EXCEPT !.st = "done"]
  ELSE LET w == Head(a.rest)
           r == Tail(a.rest)
       IN IF w = S("--") THEN [a EXCEPT !.operands = @ \o r, !.rest = <<>>, !.st = "done"]
          ELSE IF StartsWith(w, S("--")) THEN LongOption(a, From(w, 3), r)
          ELSE IF Len(w) > 1 /\ w[1] = ch("-") THEN ShortOption(a, Tail(w), r)
          ELSE [a EXCEPT !.operands = Append(@, w), !.rest = r]

\* "-?" asks for help if it is the very first argument.
AsksForHelp(args) == args # <<>> /\ Head(args) = S("-?")
=============================================================================
