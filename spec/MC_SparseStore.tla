---------------------------- MODULE MC_SparseStore ----------------------------
\* Exhaustive: every construction history over orders 1..MaxM and two values.
EXTENDS SparseStore
CONSTANTS MaxM, MaxOps
VARIABLE ops
Init == SInit /\ ops = 0
Vals == {RQ(-1, 1), RQ(1, 2)}
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ m = 0 /\ \E k \in 1 .. MaxM : New(k)
           \/ \E a, b \in Idx : \/ \E v \in Vals : Store(a, b, v) \/ Accumulate(a, b, v)
                                \/ Read(a, b) \/ RefuseLower(a, b)
           \/ Compress
Spec == Init /\ [][Next]_<<svars, ops>>
\* every step but the writing ones leaves what is stored alone; compressing never changes the source
SourceKept == [][view' # view /\ view'.m > 0 => ent' = ent]_<<svars, ops>>
View == svars
=============================================================================
