------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: worlds together with what the real program did in them.    *)
(* The batch is a JSON file named by the environment variable BATCH:       *)
(*   configs   sequence of configuration files                             *)
(*   worlds    sequence of [fs, runs, global, view, claims, obs, files]    *)
(* obs[r] is the observed result of run r: [out, rc, says, stable], out    *)
(* being what it wrote to standard output, and stable whether it did the   *)
(* same when run again; files is the content of all files afterwards.      *)
(* Every world is run through the specification; the line printed at its   *)
(* end says whether the observation is what the specification allows, seen *)
(* through the view named in the world, and which of the world's claims do *)
(* not hold for the observation and for the specification.                 *)
(***************************************************************************)
EXTENDS Props, IOUtils, Json, TLC

Batch == JsonDeserialize(IOEnv.BATCH)
TraceWorlds == Batch.worlds
TraceConfigs == Batch.configs
TraceSubstitutes == Batch.substitutes

Obs(r) == World.obs[r]
StdOut(h) == IF h.dest = <<>> THEN h.out ELSE <<>>
RunOK(r) ==
  LET h == hist[r]
      v == World.view
  IN /\ Obs(r).rc = h.rc
     /\ Obs(r).stable
     /\ h.says => Obs(r).says
     /\ h.free \/ Same(v, StdOut(h), Obs(r).out)
FilesOK ==
  /\ \A i \in 1..Len(World.files) :
       LET e == Entry(World.fs \o disk, World.files[i].path)
       IN e.kind = "file" /\ Same(World.view, e.data, World.files[i].data)
  /\ \A e \in {(World.fs \o disk)[i] : i \in 1..Len(World.fs \o disk)} :
       e.kind = "file" => \E i \in 1..Len(World.files) : World.files[i].path = e.path
Conforms == Len(World.obs) = Len(hist) /\ (\A r \in 1..Len(hist) : RunOK(r)) /\ FilesOK

(****************************** claims *************************************)
ObsFile(p) == LET is == {i \in 1..Len(World.files) : World.files[i].path = p}
              IN IF is = {} THEN <<-1>> ELSE World.files[MinOf(is)].data
Report ==
  pc = "end" =>
    LET ok == Conforms
    IN PrintT("@@" \o ToString(<<case, ok, BrokenClaims(World.obs, ObsFile), BrokenClaims(Done, SpecFile), ok \/ FilesOK,
                                 IF ok THEN <<>>
                                 ELSE [r \in 1..Len(hist) |-> IF RunOK(r) THEN <<>> ELSE <<hist[r].rc, hist[r].says, hist[r].out>>]>>))
=============================================================================
