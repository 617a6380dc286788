---------------------------- MODULE Trace_Sessions ----------------------------
\* C27.  seen holds the number of the event with the reply.
EXTENDS Replay, Sessions
Who == Ev.c.o
What == ToString([x \in DOMAIN Ev.c \ {"o", "proc"} |-> Ev.c[x]])
Answered == "crash" \notin DOMAIN Ev.r
Node == IF Ev.c.op = "new" THEN 0 ELSE NodeOf(Who)
Clutter == {"del", "dirty"}
Init == ReplayInit /\ SInit
TOp == /\ HasEvent /\ Ev.c.op \notin Clutter /\ ti' = ti + 1 /\ UNCHANGED tsc
       /\ (IF Answered THEN TRUE ELSE PrintT(<<"FAIL", Scs[tsc].id, ti, "any", Ev.c.op \o " ended the process">>) /\ FALSE)
       /\ Chk("C27", "the same operations give the same results", IF Known(Node, What) THEN Scs[tsc].ev[Told(Node, What)].r = Ev.r ELSE TRUE)
       /\ Does(Who, Node, What, ti)
TDel == IsReturn("del") /\ Gone(Who)
TDirty == IsReturn("dirty") /\ UNCHANGED svars
Next == TOp \/ TDel \/ TDirty \/ (Accept /\ UNCHANGED svars)
Spec == Init /\ [][Next]_<<rvars, svars>>
=============================================================================
