------------------------------ MODULE Listing ------------------------------
(***************************************************************************)
(* What -l and -q print.  ds: the designs known, user: a design was asked  *)
(* for with -d or -c.                                                      *)
(***************************************************************************)
EXTENDS Config

RECURSIVE NumStr(_)
NumStr(n) == IF n < 10 THEN <<48 + n>> ELSE NumStr(n \div 10) \o <<48 + (n % 10)>>
Dashes(n) == Rep(45, n)
Comma == S(", ")
ByName(ds) == SortSeq(ds, LAMBDA a, b : LessNoCase(a.name, b.name))

(******************************* tag query *********************************)
Selects(q, tags) ==
  LET tag(i) == Contains(tags, q[i].tag)
      I(s) == {i \in 1..Len(q) : q[i].sign = s}
  IN /\ \A i \in I("+") : tag(i)
     /\ \A i \in I("-") : ~tag(i)
     /\ I("+") # {} \/ \E i \in I("") : q[i].tag = QueryAll \/ tag(i)
QueryLines(q, ds) ==
  Concat([i \in 1..Len(ds) |->
    LET d == ByName(ds)[i]
    IN IF ~Selects(q, d.tags) THEN <<>>
       ELSE <<d.name>> \o [k \in 1..Len(d.aliases) |-> d.aliases[k] \o S(" (alias)")]])

(******************************* all designs *******************************)
Header(n, file, parents) ==
  LET head == NumStr(n) \o S(" Available Style") \o (IF n = 1 THEN <<>> ELSE S("s"))
      more == IF n = 1 THEN 0 ELSE 1
  IN IF parents = <<>>
     THEN <<head \o S(" in \"") \o file \o S("\":"), Dashes(23 + more + Cols(file) + Len(NumStr(n))), <<>> >>
     ELSE <<head \o S(":"), Dashes(17 + more + Len(NumStr(n))), <<>>, S("Configuration Files:"), S("    - ") \o file>>
          \o [i \in 1..Len(parents) |-> S("    - ") \o parents[i] \o S(" (parent)")] \o << <<>>, <<>> >>
AllNames(d) == d.name \o (IF d.aliases = <<>> THEN <<>> ELSE S(" alias ") \o JoinSeq(d.aliases, Comma))
\* The sample ends with a line break of its own.
DesignBlock(d, eol) ==
  LET by == CASE d.author.set /\ d.designer.set /\ d.author.val # d.designer.val
                   -> d.designer.val \o S(", coded by ") \o d.author.val
              [] d.designer.set -> d.designer.val
              [] d.author.set -> S("unknown artist, coded by ") \o d.author.val
              [] OTHER -> <<>>
      known == d.author.set \/ d.designer.set
  IN AllNames(d) \o (IF known THEN eol \o by ELSE <<>>) \o S(":") \o eol \o eol \o d.sample.val \o eol \o eol
TagCounts(ds) ==
  LET all == Concat([i \in 1..Len(ds) |-> ds[i].tags])
      tags == SetToSortSeq({all[i] : i \in 1..Len(all)}, LessNoCase)
  IN JoinSeq([i \in 1..Len(tags) |-> tags[i] \o S(" (") \o NumStr(Len(SelectSeq(all, LAMBDA t : t = tags[i]))) \o S(")")],
             S(" | "))
Lines(ss, eol) == Concat([i \in 1..Len(ss) |-> ss[i] \o eol])
ListAll(ds, file, parents, eol) ==
  LET tags == TagCounts(ds)
  IN Lines(Header(Len(ds), file, parents), eol)
     \o Concat([i \in 1..Len(ds) |-> DesignBlock(ByName(ds)[i], eol)])
     \o (IF tags = <<>> THEN <<>> ELSE tags \o eol)

(******************************* one design ********************************)
Pad(s, n) == s \o Spaces(n - Len(s))
Field(name, val) == Pad(S(name), 24) \o val
OrNone(ss) == IF ss = <<>> THEN S("none") ELSE JoinSeq(ss, Comma)
RuleLines(name, rules, word) ==
  IF rules = <<>> THEN <<Field(name, S("none"))>>
  ELSE [i \in 1..Len(rules) |->
          (IF i = 1 THEN Pad(S(name), 24) ELSE Spaces(24)) \o NumStr(i)
          \o (IF rules[i].glob THEN S(". (glob) \"") ELSE S(". (once) \"")) \o rules[i].search
          \o S("\" ") \o S(word) \o S(" \"") \o rules[i].subst \o S("\"")]
PaddingText(p) ==
  LET part(name, n) == IF n = 0 THEN <<>> ELSE <<S(name) \o NumStr(n)>>
  IN OrNone(part("left ", p[LEFT]) \o part("top ", p[TOP]) \o part("right ", p[RIGHT]) \o part("bottom ", p[BOTTOM]))
Escaped(s) ==                                         \* visible backslashes and quotes are escaped
  LET b == Str(s)
      vis == {b.v[k] : k \in 1..NVis(b)}
  IN Concat([i \in 1..Len(s) |-> IF (s[i] = 92 \/ s[i] = 34) /\ i \in vis THEN <<92, s[i]>> ELSE <<s[i]>>])
ElasticNames(d) == SelectSeq(Clockwise, LAMBDA n : n \in d.el /\ ~Empty(d.sh[n]))
ShapeLinesOf(d) ==
  LET ns == SelectSeq(Clockwise, LAMBDA n : ~DeepEmpty(d.sh[n]))
      line(n, j) == (IF n = ns[1] /\ j = 1 THEN Pad(S("Defined Shapes:"), 24) ELSE Spaces(24))
                    \o (IF j = 1 THEN Spaces(3 - Len(n)) \o S(n) \o S(":") ELSE Spaces(4))
                    \o S(" \"") \o Escaped(d.sh[n][j]) \o S("\"") \o (IF j < Len(d.sh[n]) THEN S(",") ELSE S(" "))
  IN Concat([i \in 1..Len(ns) |-> [j \in 1..Len(d.sh[ns[i]]) |-> line(ns[i], j)]])
IndentText(m) == CASE m = "b" -> S("box (indent box)") [] m = "t" -> S("text (retain indentation inside of box)")
                   [] OTHER -> S("none (discard indentation)")
Details(d, undoc, eol) ==
  Lines(<<S("Complete Design Information for \"") \o d.name \o S("\":"), Dashes(35 + Len(d.name)),
          Field("Alias Names:", OrNone(d.aliases)),
          Field("Author:", IF d.author.set THEN d.author.val ELSE S("(unknown author)")),
          Field("Original Designer:", IF d.designer.set THEN d.designer.val ELSE S("(unknown artist)")),
          Field("Configuration File:", d.file),
          Field("Indentation Mode:", IndentText(d.indent))>>
        \o RuleLines("Replacement Rules:", d.rep, "WITH") \o RuleLines("Reversion Rules:", d.rev, "TO")
        \o <<Field("Minimum Box Dimensions:", NumStr(d.minw) \o S(" x ") \o NumStr(d.minh) \o S("  (width x height)")),
             Field("Default Padding:", PaddingText(d.pad)),
             Field("Default Killblank:", IF d.empty[TOP] /\ d.empty[BOTTOM] THEN S("no") ELSE S("yes")),
             Field("Tags:", OrNone(d.tags)),
             Field("Elastic Shapes:", JoinSeq([i \in 1..Len(ElasticNames(d)) |-> S(ElasticNames(d)[i])], Comma))>>, eol)
  \o (IF undoc THEN S("Sample:") \o eol \o d.sample.val \o eol ELSE Lines(ShapeLinesOf(d), eol))
=============================================================================
