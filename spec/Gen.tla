--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Common part of the scenario generators.  A generator runs a machine of  *)
(* the specification from its initial state, picks one enabled action per  *)
(* step, and writes the commands of the behaviour for the replay driver.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, ExactReal

CONSTANTS OutFile, Seed, Family, Count

VARIABLES run,   \* which behaviour
          cmds,  \* commands so far
          fin    \* written
gvars == <<run, cmds, fin>>

Pick(tag, n) == Rnd(Seed, <<run, Len(cmds), tag>>, n)            \* 0 .. n-1
Of(tag, s) == s[1 + Pick(tag, Len(s))]                           \* element of a sequence
Chance(tag, pct) == Pick(tag, 100) < pct
\* a real k/b, k in lo..hi
PickR(tag, lo, hi, b) == RQ(lo + Pick(tag, hi - lo + 1), b)

Cmd(c) == cmds' = Append(cmds, c) /\ UNCHANGED <<run, fin>>
\* the behaviour is complete (c: closing commands)
FinishWith(name, c) == REmit(OutFile, [id |-> name, cmds |-> cmds \o c]) /\ fin' = TRUE /\ cmds' = <<>> /\ UNCHANGED run
Finish(name) == FinishWith(name, <<>>)
GenInit(runs) == run \in runs /\ cmds = <<>> /\ fin = FALSE
=============================================================================
