------------------------------- MODULE Boxes -------------------------------
(***************************************************************************)
(* The boxes program as a state machine.                                   *)
(*                                                                         *)
(* A world is a file system and a sequence of invocations of boxes, which  *)
(* run one after the other; a later one can read what an earlier one has   *)
(* written.  Worlds and configuration files are constants; a behaviour     *)
(* picks a world and runs it:                                              *)
(*                                                                         *)
(*  args --> open --> locate --> load --> choose --> list                  *)
(*                                          |------> query                 *)
(*                                          '------> read                  *)
(*  read --> fit --> growh --> growv --> emit                  (drawing)   *)
(*  read --> detect --> top --> bottom --> sides --> strip --> emit        *)
(*                                                  (removing; in the case *)
(*                                    of mending continuing with fit)      *)
(*  emit, list, query --> finish;  any error --> finish with status 1      *)
(***************************************************************************)
EXTENDS Detect, Discover, Listing

CONSTANTS Worlds,      \* sequence of [fs, runs, global]
          Configs,     \* sequence of configuration files (see Config)
          Substitutes  \* what the platform writes for characters which an encoding
                       \* does not have: sequence of [enc, c, s]

VARIABLES case, run,   \* which world, which of its invocations
          pc,
          arg,         \* state of command line processing
          load,        \* state of configuration file processing
          job,         \* state of drawing or removing
          out,         \* output of this invocation so far
          disk,        \* what previous invocations have written to files
          hist         \* results of all finished invocations: [out, rc, dest, free, says]

vars == <<case, run, pc, arg, load, job, out, disk, hist>>

World == Worlds[case]
Run == World.runs[run]
FS == World.fs \o disk
O == arg.o
Color == IF O.color = "auto" THEN Run.term ELSE O.color = "yes"
UserChoice == O.design.set \/ O.create.set

(****************************** encodings **********************************)
\* Characters which an encoding cannot represent are written as question marks,
\* unless the platform has a substitute.
KnownEncodings == {S("UTF-8"), S("ISO-8859-1"), S("US-ASCII"), S("ISO-8859-15")}
Encoding == IF O.encoding.set /\ O.encoding.val \in KnownEncodings THEN O.encoding.val ELSE S("UTF-8")
Representable(c, enc) ==
  CASE enc = S("UTF-8") -> TRUE
    [] enc = S("ISO-8859-1") -> c < 256
    [] enc = S("ISO-8859-15") -> (c < 256 /\ c \notin {164, 166, 168, 180, 184, 188, 189, 190})
                                 \/ c \in {8364, 352, 353, 381, 382, 338, 339, 376}
    [] enc = S("US-ASCII") -> c < 128
SubstituteFor(c, enc) ==
  LET ks == {k \in 1..Len(Substitutes) : Substitutes[k].c = c /\ Substitutes[k].enc = enc}
  IN IF ks = {} THEN <<QM>> ELSE Substitutes[MinOf(ks)].s
Convert(s, enc) == IF enc = S("UTF-8") THEN s
                   ELSE Concat([i \in 1..Len(s) |-> IF Representable(s[i], enc) THEN <<s[i]>> ELSE SubstituteFor(s[i], enc)])
Written(s) == Convert(s, Encoding)

(****************************** ends of a run ******************************)
Nothing == [none |-> TRUE]
Dest == IF arg.st = "done" /\ Len(arg.operands) = 2 /\ arg.operands[2] # S("-") THEN arg.operands[2] ELSE <<>>
FileEntry(p, data) == [path |-> Norm(p), kind |-> "file", data |-> data, cfg |-> 0]
\* A message is due if something failed or a design had to be left out.
BadDesign == "bad" \in DOMAIN load /\ load.bad
\* opened: the output file had been opened (and so emptied) before the run ended
Finish(code, output, opened, free) ==
  /\ hist' = Append(hist, [out |-> output, rc |-> code, dest |-> IF opened THEN Dest ELSE <<>>, free |-> free,
                           says |-> code # 0 \/ BadDesign])
  /\ disk' = IF opened /\ Dest # <<>> THEN Append(disk, FileEntry(Dest, output)) ELSE disk
  /\ out' = <<>>
  /\ load' = Nothing /\ job' = Nothing
  /\ case' = case
  /\ IF run < Len(World.runs)
     THEN /\ run' = run + 1 /\ pc' = "args" /\ arg' = ArgInit(World.runs[run + 1].args)
     ELSE /\ run' = run /\ pc' = "end" /\ arg' = Nothing
Fail == Finish(1, <<>>, TRUE, FALSE)
FailEarly == Finish(1, <<>>, FALSE, FALSE)
\* The output may be impossible to write ("full": a device without space).
Succeed(output) == IF Run.sink = "full" /\ Dest = <<>> /\ output # <<>> THEN Fail ELSE Finish(0, output, TRUE, FALSE)

Init ==
  /\ case \in 1..Len(Worlds)
  /\ run = 1 /\ pc = "args" /\ arg = ArgInit(Worlds[case].runs[1].args)
  /\ load = Nothing /\ job = Nothing /\ out = <<>> /\ disk = <<>> /\ hist = <<>>

Goto(p) == pc' = p /\ UNCHANGED <<case, run, disk, hist>>

(****************************** command line *******************************)
Args ==
  /\ pc = "args"
  /\ IF AsksForHelp(Run.args) \/ arg.st \in {"help", "version"} THEN Finish(0, <<>>, FALSE, TRUE)
     ELSE IF arg.st = "error" THEN FailEarly
     ELSE IF arg.st = "run" THEN arg' = ArgStep(arg) /\ Goto("args") /\ UNCHANGED <<load, job, out>>
     ELSE Goto("open") /\ UNCHANGED <<arg, load, job, out>>

InFile == IF arg.operands = <<>> \/ arg.operands[1] = S("-") THEN <<>> ELSE arg.operands[1]
Open ==
  /\ pc = "open"
  /\ IF \/ Len(arg.operands) > 2
        \/ InFile # <<>> /\ ~IsFile(FS, InFile) /\ ~IsDir(FS, InFile)
        \/ Dest # <<>> /\ ~CanCreate(FS, Dest)
     THEN FailEarly
     ELSE Goto("locate") /\ load' = [places |-> Places(O.config, Run.env, World.global), bad |-> FALSE] /\ UNCHANGED <<arg, job, out>>

(****************************** configuration ******************************)
FullParse == ~UserChoice /\ (O.remove \/ O.list \/ (O.query.set /\ ~O.undoc))
Entries(p) == LET e == Entry(FS, p) IN IF e.kind = "conf" THEN Configs[e.cfg] ELSE <<>>
StartFile(p, l) == [l EXCEPT !.file = p, !.next = 1, !.ds = <<>>, !.parents = <<>>, !.closed = FALSE]

Locate ==
  /\ pc = "locate"
  /\ IF load.places = <<>> THEN Fail
     ELSE LET r == Look(FS, Head(load.places))
          IN CASE r.res = "fail" -> Fail
               [] r.res = "next" -> load' = [load EXCEPT !.places = Tail(@)] /\ Goto("locate") /\ UNCHANGED <<arg, job, out>>
               [] r.res = "found" ->
                    LET l == [first |-> r.p, parsed |-> 0, plist |-> <<>>, result |-> <<>>,
                              file |-> <<>>, next |-> 1, ds |-> <<>>, parents |-> <<>>, closed |-> FALSE, bad |-> FALSE]
                    IN IF O.create.set
                       THEN LET d == CommandLineDesign(O.create.val)
                            IN IF d.ok THEN load' = [l EXCEPT !.result = <<d>>] /\ Goto("choose") /\ UNCHANGED <<arg, job, out>>
                               ELSE Fail
                       ELSE load' = StartFile(r.p, l) /\ Goto("load") /\ UNCHANGED <<arg, job, out>>

\* One entry of the file being read.
ParentFile(ref) ==
  IF EqNoCase(ref, S(":global:")) THEN LookFrom(FS, GlobalPlaces(World.global))
  ELSE IF LegalFileName(ref) /\ (IsFile(FS, ref) \/ IsDir(FS, ref)) THEN ref ELSE <<>>
LoadEntry(l, e) ==
  IF e.k = "parent"
  THEN LET p == ParentFile(TrimBlanks(e.file))
       IN IF p = <<>> \/ Contains(l.parents, p) THEN [l EXCEPT !.next = @ + 1]
          ELSE [l EXCEPT !.next = @ + 1, !.parents = Append(@, p)]
  ELSE LET ctx == [user |-> O.design, full |-> FullParse, child |-> l.result, eol |-> O.eol, file |-> l.file]
           r == ReadBox(e, l.ds, ctx)
       IN IF r.res = "accepted" THEN [l EXCEPT !.next = @ + 1, !.ds = Append(@, r.d), !.closed = ~FullParse]
          ELSE [l EXCEPT !.next = @ + 1, !.bad = @ \/ r.res = "rejected"]
\* All entries are read: designs not known yet by name are added, parents noted, last one first.
AddDesigns(result, ds) ==
  FoldLeft(LAMBDA acc, d : IF \E i \in 1..Len(acc) : EqNoCase(acc[i].name, d.name) THEN acc ELSE Append(acc, d), result, ds)
AddParents(plist, ps) ==
  FoldLeft(LAMBDA acc, p : IF Contains(acc, p) THEN acc ELSE Append(acc, p), plist, Reverse(ps))
EndFile(l) ==
  [l EXCEPT !.result = IF @ = <<>> THEN l.ds ELSE AddDesigns(@, l.ds), !.plist = AddParents(@, l.parents), !.parsed = @ + 1]

Load ==
  /\ pc = "load"
  /\ UNCHANGED <<arg, job, out>>
  /\ LET es == Entries(load.file)
     IN IF load.closed \/ load.next > Len(es)
        THEN LET l == EndFile(load)
             IN IF l.parsed <= Len(l.plist) THEN load' = StartFile(l.plist[l.parsed], l) /\ Goto("load")
                ELSE load' = l /\ Goto("choose")
        ELSE load' = LoadEntry(load, es[load.next]) /\ Goto("load")

(****************************** what to do *********************************)
Designs == load.result
Choose ==
  /\ pc = "choose"
  /\ IF Designs = <<>> THEN Fail
     ELSE IF O.list THEN Goto("list") /\ UNCHANGED <<arg, load, job, out>>
     ELSE IF O.query.set THEN Goto("query") /\ UNCHANGED <<arg, load, job, out>>
     ELSE /\ job' = [ design |-> 1, removing |-> O.remove, again |-> O.mend, d |-> ApplyOptions(Designs[1], O),
                      blk |-> <<>>, fd |-> <<>>, grow |-> <<>>, steps |-> 0, hv |-> <<>>, box |-> <<>>,
                      bs |-> <<>>, ways |-> <<>>, way |-> 1, used |-> "lit", top |-> <<>>, bottom |-> <<>>, edges |-> <<>>,
                      row |-> 1, last |-> 0 ]
          /\ Goto("read") /\ UNCHANGED <<arg, load, out>>

Shown(s) == Written(Emit(s, Color))
List ==
  /\ pc = "list"
  /\ Succeed(Shown(IF UserChoice THEN Details(Designs[1], O.undoc, O.eol)
                   ELSE ListAll(Designs, load.first, load.plist, O.eol)))
Query_ ==
  /\ pc = "query"
  /\ Succeed(Shown(Lines(QueryLines(O.query.val, Designs), O.eol)))

(****************************** input **************************************)
InputText ==
  IF InFile # <<>> THEN Entry(FS, InFile).data
  ELSE IF Run.stdin.t = "prev" /\ run > 1 THEN hist[run - 1].out ELSE Run.stdin.s
Read ==
  /\ pc = "read"
  /\ LET t == InputText
         lines == ReadLines(t, O.tabstop, job.removing)
     IN IF \/ InFile # <<>> /\ ~IsFile(FS, InFile)
           \/ InFile = <<>> /\ Run.stdin.t = "unreadable"
           \/ \E i \in 1..Len(lines) : ~Legal(lines[i].s) THEN Finish(1, <<>>, TRUE, FALSE)
        ELSE IF lines = <<>> THEN Finish(0, <<>>, TRUE, FALSE)
        ELSE /\ job' = [job EXCEPT !.blk = Analyze(lines, FinalBreak(t), job.removing, job.d.indent, job.d.rep)]
             /\ UNCHANGED <<arg, load, out>>
             /\ Goto(IF job.removing THEN "detect" ELSE "fit")

(****************************** drawing ************************************)
Target == [h |-> TargetWidth(job.fd, job.blk), v |-> TargetHeight(job.fd, job.blk)]
HSides == <<MidShapes(job.fd, TOP), MidShapes(job.fd, BOTTOM)>>
VSides == <<MidShapes(job.fd, LEFT), MidShapes(job.fd, RIGHT)>>
FitBox ==
  /\ pc = "fit"
  /\ job' = [job EXCEPT !.fd = Fit(job.d, O, job.blk), !.grow = PcInit, !.steps = 0]
  /\ Goto("growh") /\ UNCHANGED <<arg, load, out>>
Grow(sides, target, nextPc, j2(_)) ==
  LET g == PcStep(sides[1], sides[2], job.grow, target)
  IN IF PcDone(g, target) THEN job' = j2(g) /\ Goto(nextPc) /\ UNCHANGED <<arg, load, out>>
     ELSE IF job.steps > PcLimit(sides[1], sides[2], target) THEN Fail
     ELSE job' = [job EXCEPT !.grow = g, !.steps = @ + 1] /\ Goto(pc) /\ UNCHANGED <<arg, load, out>>
GrowH ==
  /\ pc = "growh"
  /\ Grow(HSides, Target.h, "growv", LAMBDA g : [job EXCEPT !.hv = g, !.grow = PcInit, !.steps = 0])
GrowV ==
  /\ pc = "growv"
  /\ Grow(VSides, Target.v, "emit",
          LAMBDA g : LET box == Assemble(job.fd, job.hv, g)
                     IN [job EXCEPT !.box = box, !.row = FirstRow(job.fd), !.last = LastRow(job.fd, box)])

(****************************** removing ***********************************)
Detect ==
  /\ pc = "detect"
  /\ LET bs  == [i \in 1..Len(job.blk.lines) |-> Str(job.blk.lines[i].s)]
         idx == IF UserChoice THEN 1 ELSE Detected(Designs, bs)
     IN IF idx = 0 THEN Fail
        ELSE LET d  == LET d0 == ApplyOptions(Designs[idx], O) IN [d0 EXCEPT !.pad = PaddingInEffect(d0, O)]
                 nb == NonBlankLines(bs)
             IN /\ UNCHANGED <<arg, load, out>>
                /\ IF nb = {} THEN job' = [job EXCEPT !.d = d, !.design = idx] /\ Goto("revert")
                   ELSE /\ job' = [job EXCEPT !.d = d, !.design = idx, !.bs = bs,
                                     !.ways = Ways(InputMono(bs), DesignMono(d)),
                                     !.top = <<MinOf(nb), MinOf(nb)>>, !.bottom = <<MaxOf(nb) + 1, MaxOf(nb) + 1>>]
                        /\ Goto("top")

\* top = <<a, b>>: lines a to b-1 are the top of the box; likewise bottom
Top ==
  /\ pc = "top" /\ UNCHANGED <<arg, load, out>>
  /\ LET a == job.top[1]
         i == job.top[2]
     IN IF job.d.empty[TOP] \/ i >= a + job.d.h["NE"] \/ i > Len(job.bs)
           \/ ~TopLineMatches(job.d, job.bs, job.ways, i, i - a)
        THEN Goto("bottom") /\ UNCHANGED job
        ELSE job' = [job EXCEPT !.top[2] = i + 1] /\ Goto("top")
Bottom ==
  /\ pc = "bottom" /\ UNCHANGED <<arg, load, out>>
  /\ LET i == job.bottom[1] - 1
         z == job.bottom[2]
     IN IF job.d.empty[BOTTOM] \/ i < z - job.d.h["SE"] \/ i < 1
           \/ ~BottomLineMatches(job.d, job.bs, job.ways, i)
        THEN LET from == Max2(job.bottom[1], job.top[2])    \* what belongs to the top is not part of the bottom
             IN job' = [job EXCEPT !.bottom = <<from, Max2(z, from)>>, !.way = 1] /\ Goto("sides")
        ELSE job' = [job EXCEPT !.bottom[1] = i] /\ Goto("bottom")

\* Ways of comparison are tried until most of the sides is found.
Sides ==
  /\ pc = "sides" /\ UNCHANGED <<arg, load, out>>
  /\ IF (job.d.empty[LEFT] /\ job.d.empty[RIGHT]) \/ job.bottom[1] = job.top[2]
     THEN job' = [job EXCEPT !.edges = [k \in 1..(job.bottom[1] - job.top[2]) |-> [west |-> NoEdge, east |-> NoEdge]],
                             !.used = "lit"] /\ Goto("strip")
     ELSE LET es == Edges(job.d, job.bs, job.top[2], job.bottom[1] - 1, job.ways[job.way])
          IN IF Sufficient(job.d, es) \/ job.way = Len(job.ways)
             THEN job' = [job EXCEPT !.edges = es, !.used = job.ways[job.way]] /\ Goto("strip")
             ELSE job' = [job EXCEPT !.way = @ + 1] /\ Goto("sides")

KeepIndent == O.indentmode \in {"", "b"}
KillBlank_ == IF O.killblank = -1 THEN ~(job.d.empty[TOP] /\ job.d.empty[BOTTOM]) ELSE O.killblank = 1
Strip ==
  /\ pc = "strip" /\ UNCHANGED <<arg, load, out>>
  /\ LET t2 == job.top[2]
         b1 == job.bottom[1]
         strip(i) == LET e == job.edges[i - t2 + 1]
                         s == StripLine(job.d, job.bs[i], job.used, e)
                     IN IF e.west.q > 0 /\ KeepIndent THEN Spaces(job.blk.indent) \o s ELSE s
         lines == [i \in 1..Len(job.bs) |-> IF i >= t2 /\ i < b1 THEN [job.blk.lines[i] EXCEPT !.s = strip(i)]
                                            ELSE job.blk.lines[i]]
         bs == [i \in 1..Len(lines) |-> Str(lines[i].s)]
         lead == BlankLead(bs, t2, b1 - 1, 1)
         from == t2 + (IF KillBlank_ THEN lead ELSE Min2(lead, job.d.pad[TOP]))
         trail == BlankLead(bs, b1 - 1, from, -1)
         to == b1 - (IF KillBlank_ THEN trail ELSE Min2(trail, job.d.pad[BOTTOM]))
         blk == Remaining(job.blk, SubSeq(lines, 1, job.top[1] - 1) \o SubSeq(lines, from, to - 1)
                                   \o From(lines, job.bottom[2]))
         n == IF job.d.empty[LEFT] THEN Min2(blk.indent, job.d.pad[LEFT]) ELSE 0
         body == job.top[1]..(job.top[1] + to - from - 1)
     IN job' = [job EXCEPT !.blk =
                  IF n = 0 THEN blk
                  ELSE [blk EXCEPT !.lines = [i \in 1..Len(blk.lines) |->
                                                IF i \in body THEN [blk.lines[i] EXCEPT !.s = CutIndent(Str(@), n)]
                                                ELSE blk.lines[i]],
                                   !.indent = @ - n, !.maxline = @ - n]]
  /\ Goto("revert")
RevertText ==
  /\ pc = "revert"
  /\ LET blk == Revert(job.d, job.blk)
         trimmed == [i \in 1..Len(blk.lines) |-> [blk.lines[i] EXCEPT !.s = IF BlankB(Str(@)) THEN <<>> ELSE RTrim(@)]]
     IN IF ~job.again
        THEN /\ job' = [job EXCEPT !.blk = blk, !.row = 1, !.last = Len(blk.lines)]
             /\ Goto("emit") /\ UNCHANGED <<arg, load, out>>
        ELSE IF trimmed = <<>> THEN Finish(0, <<>>, TRUE, FALSE)
        ELSE /\ job' = [job EXCEPT !.removing = FALSE, !.again = FALSE,
                                   !.blk = Analyze(trimmed, blk.final, FALSE, job.d.indent, job.d.rep)]
             /\ Goto("fit") /\ UNCHANGED <<arg, load, out>>

(****************************** output *************************************)
EmitRow ==
  /\ pc = "emit" /\ job.row <= job.last
  /\ LET s == IF job.removing THEN RemainingLine(job.blk, [O EXCEPT !.color = Color], job.row)
              ELSE Emit(RowString(job.fd, O, job.blk, job.box, job.row), Color)
         eol == IF job.row < job.last \/ job.blk.final THEN O.eol ELSE <<>>
     IN out' = out \o Written(s) \o eol
  /\ job' = [job EXCEPT !.row = @ + 1]
  /\ Goto("emit") /\ UNCHANGED <<arg, load>>
EmitDone == pc = "emit" /\ job.row > job.last /\ Succeed(out)

Terminated == pc = "end" /\ UNCHANGED vars

Next ==
  \/ Args \/ Open \/ Locate \/ Load \/ Choose \/ List \/ Query_ \/ Read
  \/ FitBox \/ GrowH \/ GrowV
  \/ Detect \/ Top \/ Bottom \/ Sides \/ Strip \/ RevertText
  \/ EmitRow \/ EmitDone
  \/ Terminated

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
