------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace file holds scenarios, *)
(* each a sequence of events [c |-> command, r |-> reply] recorded from    *)
(* the real library.  A trace specification has one initial state per      *)
(* scenario and one action per specification action; an event is consumed  *)
(* by an action only when the reply is the one the specification demands.  *)
(* A scenario all of whose events are consumed is accepted.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, ExactReal

CONSTANTS TraceFile, \* recorded scenarios
          Focus      \* properties whose demands are enforced in this run

VARIABLES tsc, ti      \* scenario, next event

Scs == RLoad(TraceFile)
rvars == <<tsc, ti>>

ReplayInit == tsc \in 1 .. Len(Scs) /\ ti = 1
HasEvent == ti <= Len(Scs[tsc].ev)
Ev == Scs[tsc].ev[ti]

\* A demand of property p; when it is not met the event is not explained and the trace is rejected.
Chk(p, name, ok) == IF p \notin Focus THEN TRUE ELSE IF ok THEN TRUE ELSE PrintT(<<"FAIL", Scs[tsc].id, ti, p, name>>) /\ FALSE

Returned == {"exc", "crash"} \cap DOMAIN Ev.r = {}
Refused == "exc" \in DOMAIN Ev.r

\* An event of operation op, consumed.
IsEvent(op) == HasEvent /\ Ev.c.op = op /\ ti' = ti + 1 /\ UNCHANGED tsc
\* ... which must have returned a result
MustReturn == IF Returned THEN TRUE ELSE PrintT(<<"FAIL", Scs[tsc].id, ti, "any", Ev.c.op \o " did not return a result">>) /\ FALSE
IsReturn(op) == IsEvent(op) /\ MustReturn

Accept == /\ ti = Len(Scs[tsc].ev) + 1
          /\ PrintT(<<"ACCEPT", Scs[tsc].id>>)
          /\ ti' = ti + 1 /\ UNCHANGED tsc
=============================================================================
