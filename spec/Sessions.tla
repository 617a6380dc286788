------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Several simulations in one process.  What an operation returns is a     *)
(* function of the operations done before on the same simulation, so two   *)
(* simulations with the same history always return the same.  Histories    *)
(* are the nodes of a tree: past maps a node and an operation to the node  *)
(* of the longer history, seen maps a node to the reply known for it.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES at,    \* the history of each simulation that exists
          past, seen
svars == <<at, past, seen>>
SInit == at = [o \in {} |-> 0] /\ past = [k \in {} |-> 0] /\ seen = <<>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NodeOf(o) == IF o \in DOMAIN at THEN at[o] ELSE 0
\* object o does c on node n (0: it is created) and is told r
Does(o, n, c, r) == LET k == <<n, c>> IN
  IF k \in DOMAIN past THEN at' = With(at, o, past[k]) /\ UNCHANGED <<past, seen>>
  ELSE at' = With(at, o, Len(seen) + 1) /\ past' = With(past, k, Len(seen) + 1) /\ seen' = Append(seen, r)
Known(n, c) == <<n, c>> \in DOMAIN past
Told(n, c) == seen[past[<<n, c>>]]
Gone(o) == at' = [x \in DOMAIN at \ {o} |-> at[x]] /\ UNCHANGED <<past, seen>>
=============================================================================
