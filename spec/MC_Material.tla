----------------------------- MODULE MC_Material -----------------------------
\* Exhaustive: all short register programs over two registers; all curves with up to 4 points on a grid.
EXTENDS Material
CONSTANTS Depth
VARIABLE d, val    \* val: the value each register must have, tracked as a function of the permeabilities
Mus == {<<RQ(1, 1), RQ(2, 1)>>, <<RQ(1, 2), RQ(4, 1)>>}
Regs == {"p", "q"}
V0 == TLCEval([mu \in Mus |-> R(0)])
Lift(F(_)) == TLCEval([mu \in Mus |-> F(mu)])
Init == MInit /\ d = 0 /\ val = [x \in Regs |-> V0]
Expect(f, t, u, v, k, mu) == CASE f = "setd" -> R(v) [] f = "sete" -> val[u][mu] [] f = "addd" -> val[t][mu] (+) v [] f = "subd" -> val[t][mu] (-) v
   [] f = "addt" -> val[t][mu] (+) (v (/) mu[k + 1]) [] f = "subt" -> val[t][mu] (-) (v (/) mu[k + 1])
   [] f = "adde" -> val[t][mu] (+) val[u][mu] [] f = "sube" -> val[t][mu] (-) val[u][mu] [] f = "mul" -> val[u][mu] (.) v
Next == /\ d < Depth /\ d' = d + 1
        /\ \E f \in {"setd", "sete", "addd", "subd", "addt", "subt", "adde", "sube", "mul"}, t, u \in Regs, k \in {0, 1} :
             LET v == RQ(3, 2) IN
             /\ f \in {"addt", "subt"} \/ k = 0
             /\ ExprOp(f, t, u, v, k)
             /\ val' = [val EXCEPT ![t] = TLCEval([mu \in Mus |-> Expect(f, t, u, v, k, mu)])]
Spec == Init /\ [][Next]_<<mvars, d, val>>
ValuesRight == \A n \in Regs : \A mu \in Mus : XEval(Reg(n), mu) \doteq val[n][mu]
\* curves: points (B, H) of a grid, B distinct, both increasing
G == {<<RQ(b, 1), RQ(b * b + h, 1)>> : b \in 1 .. 4, h \in 0 .. 1}
Curves == {c \in SUBSET G : Cardinality(c) >= 2 /\ \A p, q \in c : p = q \/ ~REq(p[1], q[1])}
ASSUME CurvesRight == \A c \in Curves : \A b \in 0 .. 10 : \E s \in Permeabilities(c, 1, RQ(b, 2)) : s \doteq ActiveSlope(c, RQ(b, 2))
ASSUME CurvesTotal == \A c \in Curves : \A b \in 0 .. 10 : Cardinality(Permeabilities(c, 1, RQ(b, 2))) \in 1 .. 2
=============================================================================
