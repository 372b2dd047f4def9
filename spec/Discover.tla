------------------------------ MODULE Discover ------------------------------
(***************************************************************************)
(* The file system, and where the configuration file is looked for.        *)
(* A file system is a sequence of entries [path, kind, data, cfg], kind    *)
(* being "file" (with data), "conf" (a configuration file with index cfg)  *)
(* or "dir".                                                               *)
(***************************************************************************)
EXTENDS Chars, Ascii

SLASH == 47
RECURSIVE Collapse(_)
Collapse(p) == IF Len(p) < 2 THEN p
               ELSE IF p[1] = SLASH /\ p[2] = SLASH THEN Collapse(Tail(p)) ELSE <<Head(p)>> \o Collapse(Tail(p))
Norm(p) == LET q == Collapse(p) IN IF Len(q) > 1 /\ q[Len(q)] = SLASH THEN Upto(q, Len(q) - 1) ELSE q
Absent == [kind |-> "none", path |-> <<>>, data |-> <<>>, cfg |-> 0]
Entry(fs, p) ==
  LET S1 == {i \in 1..Len(fs) : fs[i].path = Norm(p)}
  IN IF p = <<>> \/ S1 = {} THEN Absent ELSE fs[MaxOf(S1)]      \* later entries replace earlier ones
IsFile(fs, p) == Entry(fs, p).kind \in {"file", "conf"} /\ p[Len(p)] # SLASH
IsDir(fs, p) == Entry(fs, p).kind = "dir"
Join(dir, name) == IF dir[Len(dir)] = SLASH THEN dir \o name ELSE dir \o <<SLASH>> \o name
ParentDir(p) == LET sl == {i \in 1..Len(p) : p[i] = SLASH} IN IF sl = {} THEN <<>> ELSE Upto(p, Max2(1, MaxOf(sl) - 1))
CanCreate(fs, p) == p # <<>> /\ p[Len(p)] # SLASH /\ ~IsDir(fs, p) /\ (ParentDir(p) = <<>> \/ IsDir(fs, ParentDir(p)))

ConfigNames == <<S(".boxes"), S("box-designs"), S("boxes-config"), S("boxes")>>
\* The configuration file in a directory, or <<>>.
InDir(fs, dir) ==
  LET ok == {i \in 1..4 : IsFile(fs, Join(dir, ConfigNames[i]))}
  IN IF ok = {} THEN <<>> ELSE Join(dir, ConfigNames[MinOf(ok)])

\* env: [boxes, home, xdg], each [set, val]; global: the path compiled into the program
GlobalPlaces(global) ==
  << [t |-> "file", p |-> global], [t |-> "dir", p |-> S("/etc/xdg/boxes")],
     [t |-> "dir", p |-> S("/usr/local/share/boxes")], [t |-> "dir", p |-> S("/usr/share/boxes")] >>
Dir(v, suffix) == IF v.set THEN << [t |-> "dir", p |-> v.val \o suffix] >> ELSE <<>>
Places(config, env, global) ==
  IF config.set THEN << [t |-> "given", p |-> config.val] >>
  ELSE IF env.boxes.set THEN << [t |-> "given", p |-> env.boxes.val] >>
  ELSE Dir(env.home, <<>>) \o Dir(env.xdg, S("/boxes")) \o Dir(env.home, S("/.config/boxes")) \o GlobalPlaces(global)

\* Looking at one place: [res |-> "found", p], [res |-> "next"] or [res |-> "fail"].
Found(p) == [res |-> "found", p |-> p]
Look(fs, place) ==
  CASE place.t = "file" -> IF IsFile(fs, place.p) THEN Found(place.p) ELSE [res |-> "next"]
    [] place.t = "dir" -> IF IsDir(fs, place.p) /\ InDir(fs, place.p) # <<>> THEN Found(InDir(fs, place.p))
                          ELSE [res |-> "next"]
    [] place.t = "given" -> IF IsFile(fs, place.p) THEN Found(place.p)
                            ELSE IF IsDir(fs, place.p) /\ InDir(fs, place.p) # <<>> THEN Found(InDir(fs, place.p))
                            ELSE [res |-> "fail"]
RECURSIVE LookFrom(_, _)
LookFrom(fs, places) ==
  IF places = <<>> THEN <<>>
  ELSE LET r == Look(fs, Head(places))
       IN CASE r.res = "found" -> r.p [] r.res = "fail" -> <<>> [] OTHER -> LookFrom(fs, Tail(places))
=============================================================================
