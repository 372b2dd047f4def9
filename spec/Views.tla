------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* What a property looks at in an output.                                  *)
(*   full     everything                                                   *)
(*   text     the rows of text, without the box around them and without    *)
(*            regard to their horizontal position                          *)
(*   outline  everything but the text, whose characters become blanks      *)
(*   lines    everything but blank lines and trailing blanks               *)
(*   fate     only whether there is any output (exit status and messages   *)
(*            are always looked at)                                        *)
(* In the first two, text is what consists of letters, digits and other    *)
(* characters which do not occur in the shapes of the designs used.        *)
(***************************************************************************)
EXTENDS Input

IsTextCP(c) == c > 127 \/ (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)

RowsOf(t) == LET raw == SplitLines(t, 1, 1) IN [i \in 1..Len(raw) |-> StripBreak(raw[i])]
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] = SP THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrimSP(_)
RTrimSP(s) == IF s # <<>> /\ s[Len(s)] = SP THEN RTrimSP(Upto(s, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrimSP(s))
RECURSIVE DropLead(_)
DropLead(rows) == IF rows # <<>> /\ Head(rows) = <<>> THEN DropLead(Tail(rows)) ELSE rows
Inner(rows) == Reverse(DropLead(Reverse(DropLead(rows))))

TextRows(t) == Inner([i \in 1..Len(RowsOf(t)) |-> Trim([k \in 1..Len(RowsOf(t)[i]) |->
                        IF IsTextCP(RowsOf(t)[i][k]) THEN RowsOf(t)[i][k] ELSE SP])])
Outline(t) == [i \in 1..Len(RowsOf(t)) |->
                 RTrimSP(Concat([k \in 1..Len(RowsOf(t)[i]) |->
                   LET c == RowsOf(t)[i][k] IN IF IsTextCP(c) THEN Spaces(Width(c)) ELSE <<c>>]))]
SolidLines(t) == SelectSeq([i \in 1..Len(RowsOf(t)) |-> RTrimSP(RowsOf(t)[i])], LAMBDA r : r # <<>>)

Same(view, a, b) ==
  \/ a = b
  \/ CASE view = "full" -> FALSE
       [] view = "text" -> TextRows(a) = TextRows(b)
       [] view = "outline" -> Outline(a) = Outline(b)
       [] view = "lines" -> SolidLines(a) = SolidLines(b)
       [] view = "fate" -> (a = <<>>) = (b = <<>>)
=============================================================================
