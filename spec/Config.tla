------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configuration files: sequences of entries, each a design or a reference *)
(* to a parent configuration file.                                         *)
(*                                                                         *)
(*   [k |-> "parent", file |-> string]                                     *)
(*   [k |-> "box", names |-> <<primary, alias, ...>>, secs |-> sections,   *)
(*    end |-> string]                                                      *)
(*                                                                         *)
(* Sections of a design:                                                   *)
(*   [k |-> "sample", lines]            [k |-> "elastic", names]           *)
(*   [k |-> "shapes", shapes |-> << [n, given, lines] >>]                  *)
(*   [k |-> "padding", areas |-> << [area, n] >>]                          *)
(*   [k |-> "replace" / "reverse", glob, search, subst, pat, with]         *)
(*   [k |-> "tags", items |-> strings]  [k |-> "key", key, val]            *)
(*   [k |-> "delim", spec |-> string]   [k |-> "junk"]                     *)
(*                                                                         *)
(* ReadBox yields what becomes of a design: it is accepted, rejected       *)
(* because something is wrong with it, or skipped because it is not needed.*)
(***************************************************************************)
EXTENDS Design, CmdLine

\* Control characters cannot be part of strings, except ESC and tab.
IllegalCp(c) == (c < 32 /\ c \notin {TAB, LF, CR, ESC}) \/ (c >= 127 /\ c <= 159) \/ c \in {8232, 8233}
Legal(s) == \A i \in 1..Len(s) : ~IllegalCp(s[i])
LegalShapeLine(s) == Legal(s) /\ Vis(s) # <<>> /\ \A i \in 1..Len(s) : s[i] \notin {CR, LF}
LegalValue(s) == Legal(s) /\ \A i \in 1..Len(s) : s[i] \notin {CR, LF, ESC}
LegalFileName(s) == LegalValue(s) /\ s # <<>>

(******************************* sections **********************************)
NewDesign(name, aliases) ==
  [ ok |-> TRUE, name |-> name, aliases |-> aliases, has |-> {}, sechecks |-> 0, given |-> 0,
    sh |-> NoShapes, el |-> {}, minw |-> 0, minh |-> 0, sample |-> None, author |-> None, designer |-> None,
    tags |-> <<>>, pad |-> <<0, 0, 0, 0>>, indent |-> "b", rep |-> <<>>, rev |-> <<>> ]
Reject(d) == [d EXCEPT !.ok = FALSE]

\* Once both shapes and elastic shapes are known, they must go together.
CheckElastic(d) ==
  LET d1 == [d EXCEPT !.sechecks = @ + 1]
  IN IF d1.sechecks > 1 /\ ~ElasticOK(d1.sh, d1.el) THEN Reject(d1) ELSE d1

ShapeEntry(d, e) ==
  IF ~d.ok THEN d
  ELSE IF \/ \E i \in 1..Len(e.lines) : ~LegalShapeLine(e.lines[i])
          \/ \E i \in 1..Len(e.lines) : Cols(Vis(e.lines[i])) # ShapeW(e.lines)
          \/ ~Empty(d.sh[e.n])
       THEN Reject(d)
  ELSE LET lines == IF ShapeW(e.lines) = 0 THEN <<>> ELSE e.lines
       IN [d EXCEPT !.sh[e.n] = lines, !.given = @ + (IF DeepEmpty(lines) THEN 0 ELSE 1)]

FinishShapes(d) ==
  IF ~d.ok \/ d.given = 0 THEN Reject(d)
  ELSE LET c == CompleteShapes(d.sh, d.el)
       IN IF ~c.ok THEN Reject(d)
          ELSE LET d1 == CheckElastic([d EXCEPT !.sh = c.sh, !.el = c.el, !.has = @ \cup {"shapes"}])
               IN IF ~d1.ok THEN d1
                  ELSE [d1 EXCEPT !.minw = Max2(@, MinWidth(c.sh)), !.minh = Max2(@, MinHeight(c.sh))]

\* an area may be abbreviated
AreaOf(a) ==
  LET is(name) == StartsWith(S(name), LowerS(a))
  IN CASE is("all") -> {1, 2, 3, 4} [] is("horizontal") -> {2, 4} [] is("vertical") -> {1, 3}
       [] is("top") -> {1} [] is("right") -> {2} [] is("left") -> {4} [] is("bottom") -> {3} [] OTHER -> {}
PaddingEntry(pad, e) == IF e.n < 0 THEN pad ELSE [i \in 1..4 |-> IF i \in AreaOf(e.area) THEN e.n ELSE pad[i]]

AddTag(tags, t) == IF IsTag(t) /\ ~Contains(tags, t) THEN Append(tags, t) ELSE tags
AddTags(tags, item) ==
  IF HasEsc(item) THEN tags ELSE FoldLeft(LAMBDA ts, t : AddTag(ts, TrimBlanks(t)), tags, SplitAt(item, 44))

\* The sample: trailing white space and leading blank lines do not count.
SampleWhite(c) == c \in {SP, TAB, LF, CR}
SampleText(lines, eol) ==
  LET idx == {i \in 1..Len(lines) : ~BlankStr(lines[i])}
      kept == SubSeq(lines, MinOf(idx), MaxOf(idx))
      last == kept[Len(kept)]
      lastc == Upto(last, MaxOf({i \in 1..Len(last) : ~(SampleWhite(last[i]) \/ IsBlank(last[i]))}))
      unix == [i \in 1..Len(kept) |-> IF i < Len(kept) THEN (IF kept[i] # <<>> /\ kept[i][Len(kept[i])] = CR
                                                            THEN Upto(kept[i], Len(kept[i]) - 1) ELSE kept[i])
                                      ELSE lastc]
  IN JoinSeq(unix, eol) \o eol

Rule(sec) == [glob |-> sec.glob, search |-> sec.search, subst |-> sec.subst, pat |-> sec.pat, with |-> sec.with]

Section(d, sec, eol) ==
  IF ~d.ok THEN d ELSE
  CASE sec.k = "sample" ->
         IF d.sample.set \/ \A i \in 1..Len(sec.lines) : BlankStr(sec.lines[i]) THEN Reject(d)
         ELSE IF \E i \in 1..Len(sec.lines) : ~Legal(sec.lines[i]) THEN Reject(d)
         ELSE [d EXCEPT !.sample = Some(SampleText(sec.lines, eol)), !.has = @ \cup {"sample"}]
    [] sec.k = "shapes" -> FinishShapes(FoldLeft(ShapeEntry, d, sec.shapes))
    [] sec.k = "elastic" -> CheckElastic([d EXCEPT !.el = @ \cup SetOf(sec.names), !.has = @ \cup {"elastic"}])
    [] sec.k = "padding" -> [d EXCEPT !.pad = FoldLeft(PaddingEntry, @, sec.areas)]
    [] sec.k = "replace" -> IF Legal(sec.search) /\ Legal(sec.subst) THEN [d EXCEPT !.rep = Append(@, Rule(sec))] ELSE Reject(d)
    [] sec.k = "reverse" -> IF Legal(sec.search) /\ Legal(sec.subst) THEN [d EXCEPT !.rev = Append(@, Rule(sec))] ELSE Reject(d)
    [] sec.k = "tags" -> IF \E i \in 1..Len(sec.items) : ~Legal(sec.items[i]) THEN Reject(d)
                         ELSE [d EXCEPT !.tags = FoldLeft(AddTags, @, sec.items)]
    [] sec.k = "key" ->
         LET key == LowerS(sec.key)
         IN IF ~Legal(sec.val) THEN Reject(d)
            ELSE IF key \notin {S("author"), S("designer"), S("indent")} THEN d
            ELSE IF ~LegalValue(sec.val) THEN Reject(d)
            ELSE (CASE key = S("author") -> [d EXCEPT !.author = Some(sec.val)]
                   [] key = S("designer") -> [d EXCEPT !.designer = Some(sec.val)]
                   [] key = S("indent") -> (CASE LowerS(sec.val) = S("box") -> [d EXCEPT !.indent = "b"]
                                             [] LowerS(sec.val) = S("text") -> [d EXCEPT !.indent = "t"]
                                             [] LowerS(sec.val) = S("none") -> [d EXCEPT !.indent = "n"]
                                             [] OTHER -> Reject(d)))
    [] sec.k = "delim" -> IF Len(sec.spec) # 2 \/ sec.spec[1] = sec.spec[2]
                             \/ ~Contains(S("\"~'`!@%&*=:;<>?/|.\\"), sec.spec[2]) THEN Reject(d) ELSE d
    [] sec.k = "junk" -> Reject(d)

(***************************************************************************)
(* One design.  ctx: [user (None or the name asked for), full, child       *)
(* (designs from the files read before), eol, file].                       *)
(***************************************************************************)
HasAlias(d, n) == \E i \in 1..Len(d.aliases) : EqNoCase(d.aliases[i], n)
HasName(d, n) == EqNoCase(d.name, n) \/ HasAlias(d, n)
NameTaken(ds, n) == \E i \in 1..Len(ds) : HasName(ds[i], n)

\* The design as it is used for drawing and removing.
Finished(d, file) ==
  [ ok |-> TRUE, name |-> d.name, aliases |-> d.aliases, sh |-> d.sh, el |-> d.el,
    w |-> [n \in Names |-> ShapeW(d.sh[n])], h |-> [n \in Names |-> ShapeH(d.sh[n])],
    minw |-> d.minw, minh |-> d.minh, pad |-> d.pad, indent |-> d.indent,
    empty |-> [s \in 1..4 |-> EmptySide(d.sh, s)], rep |-> d.rep, rev |-> d.rev,
    sample |-> d.sample, author |-> d.author, designer |-> d.designer, tags |-> d.tags, file |-> file ]

Rejected == [res |-> "rejected"]
ReadBox(e, ds, ctx) ==
  LET name == Head(e.names)
      given == Tail(e.names)
      aliases == SelectSeq(given, LAMBDA a : ~\E i \in 1..Len(ctx.child) : HasAlias(ctx.child[i], a))
      d0 == NewDesign(name, aliases)
      needed == IF ctx.user.set THEN HasName(d0, ctx.user.val) ELSE ctx.full \/ ds = <<>>
      d == FoldLeft(LAMBDA acc, sec : Section(acc, sec, ctx.eol), d0, e.secs)
  IN IF \E i \in 1..Len(given) : NameTaken(ds, given[i]) THEN Rejected
     ELSE IF ~needed THEN [res |-> "skipped"]
     ELSE IF ~d.ok \/ ~EqNoCase(name, e.end) \/ d.has # {"sample", "shapes", "elastic"} \/ NameTaken(ds, name)
          THEN Rejected
     ELSE [res |-> "accepted", d |-> Finished(d, ctx.file)]

\* The design that -c STR stands for.
CommandLineDesign(str) ==
  IF ~Legal(str) \/ Cols(Vis(str)) = 0 THEN [ok |-> FALSE] ELSE
  LET sh0 == [NoShapes EXCEPT !["W"] = <<str>>]
      c == CompleteShapes(sh0, {"W"})
  IN Finished([NewDesign(S("<Command Line Definition>"), <<>>) EXCEPT
                  !.sh = c.sh, !.el = c.el, !.minw = MinWidth(c.sh), !.minh = MinHeight(c.sh),
                  !.pad = <<0, 0, 0, 1>>, !.sample = Some(S("n/a")), !.tags = <<S("transient")>>], S("(command line)"))
=============================================================================
