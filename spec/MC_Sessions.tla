---------------------------- MODULE MC_Sessions ----------------------------
\* All interleavings of up to DEPTH operations of simulations that share one mesher.  A mesher run clears the work space
\* of the mesher, then uses it; a run that fails leaves it as it is.  What simulations return is a function of their own
\* histories; it would not be if the work space were cleared only after runs that end (LAZY), nor if a failed run of one
\* simulation were remembered for the next.
EXTENDS Sessions, TLC
CONSTANTS OBJ, DEPTH, LAZY
VARIABLES work,   \* work space of the mesher: shapes left in it
          own     \* what each simulation has drawn
mvars == <<at, past, seen, work, own>>
Ops == {"new", "draw", "mesh", "cross"}   \* cross: a drawing that cannot be meshed, and the attempt
Init == SInit /\ work = 0 /\ own = [o \in {} |-> 0]
Start == IF LAZY THEN work ELSE 0
Reply(o, c) == CASE c = "new" -> 0 [] c = "draw" -> own[o] + 1 [] c = "mesh" -> own[o] + Start [] c = "cross" -> -1
Op(o, c) == /\ Len(seen) < DEPTH /\ (c # "new" => o \in DOMAIN at)
            /\ Does(o, IF c = "new" THEN 0 ELSE at[o], c, Reply(o, c))
            /\ own' = With(own, o, CASE c = "new" -> 0 [] c = "draw" -> own[o] + 1 [] OTHER -> own[o])
            /\ work' = CASE c = "mesh" -> 0 [] c = "cross" -> own[o] + 1 [] OTHER -> work
Del(o) == o \in DOMAIN at /\ Gone(o) /\ own' = [x \in DOMAIN own \ {o} |-> own[x]] /\ UNCHANGED work
Next == \E o \in OBJ : Del(o) \/ \E c \in Ops : Op(o, c)
Spec == Init /\ [][Next]_mvars
\* a reply that is asked for again is the one known
Isolated == \A o \in DOMAIN at : \A c \in Ops \ {"new"} : Known(at[o], c) => Told(at[o], c) = Reply(o, c)
\* histories: every node is reached by one operation from one node, simulations are on nodes
Tree == /\ \A k, j \in DOMAIN past : past[k] = past[j] => k = j
        /\ {past[k] : k \in DOMAIN past} = 1 .. Len(seen) /\ \A k \in DOMAIN past : k[1] < past[k]
        /\ \A o \in DOMAIN at : at[o] \in 1 .. Len(seen)
\* simulations with the same history have drawn the same
Alike == \A o, u \in DOMAIN at : at[o] = at[u] => own[o] = own[u]
=============================================================================
