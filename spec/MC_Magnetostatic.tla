--------------------------- MODULE MC_Magnetostatic ---------------------------
\* Exhaustive: a disc of four triangles glued to the inverted outside of eight; every assignment of materials (air, iron,
\* currents, magnets) to up to NM of the inner triangles, in every order; assembled, grounded far away and solved exactly.
EXTENDS Magnetostatic
CONSTANTS NM
VARIABLES mat,   \* material of each inner triangle
          used,  \* number of marks set
          net    \* the system, n = 0 before assembly
vars == <<mat, used, net>>
Z(a, b) == <<R(a), R(b)>>
Disc == <<Z(1, 0), Z(0, 1), Z(-1, 0), Z(0, -1), Z(0, 0), <<RQ(1, 4), RQ(-1, 8)>>, <<R(0), RQ(1, 4)>>, <<RQ(-1, 4), RQ(-1, 8)>>>>
InT == <<<<1, 2, 5>>, <<2, 3, 5>>, <<3, 4, 5>>, <<4, 1, 5>>>>
OutT == <<<<1, 2, 7>>, <<1, 7, 6>>, <<2, 3, 7>>, <<3, 8, 7>>, <<3, 4, 8>>, <<4, 6, 8>>, <<4, 1, 6>>, <<6, 7, 8>>>>
\* the listing order of the corners is immaterial
Mesh == TLCEval([pts |-> [v \in 1 .. 8 |-> IF v > 5 THEN Invert(Disc[v], R(1)) ELSE Disc[v]], tris |-> InT \o OutT, attr |-> [t \in 1 .. 12 |-> 0]])
N == 8
Mats == <<[mu |-> RQ(1, 4), J |-> R(0), M |-> Z(0, 0), id |-> 0], [mu |-> R(1), J |-> R(3), M |-> Z(0, 0), id |-> 0], [mu |-> R(1), J |-> R(-2), M |-> Z(0, 0), id |-> 0],
          [mu |-> R(1), J |-> R(0), M |-> Z(1, 0), id |-> 1], [mu |-> RQ(1, 2), J |-> R(1), M |-> Z(-1, 2), id |-> 2]>>
Air == [mu |-> R(1), J |-> R(0), M |-> Z(0, 0), id |-> 0]
MatAt(t) == IF t > 4 THEN Air ELSE IF mat[t] = 0 THEN Air ELSE Mats[mat[t]]
None == [n |-> 0, A |-> <<>>, A0 |-> <<>>, b |-> <<>>, fixed |-> <<>>]
Init == mat = <<0, 0, 0, 0>> /\ used = 0 /\ net = None
Mark == net.n = 0 /\ used < NM /\ used' = used + 1 /\ (\E t \in 1 .. 4, k \in 1 .. Len(Mats) : mat' = [mat EXCEPT ![t] = k]) /\ UNCHANGED net
L == Load(Mesh, LAMBDA t : MatAt(t).J, LAMBDA t : MatAt(t).M, LAMBDA t : MatAt(t).id)
Vec(F) == TLCEval([i \in 1 .. N |-> IF <<i, i>> \in DOMAIN F THEN F[<<i, i>>][1] ELSE R(0)])
Assemble == net.n = 0 /\ UNCHANGED <<mat, used>> /\ net' = [MkSys(N, Values(Reluctance(Mesh, LAMBDA t : MatAt(t).mu))) EXCEPT !.b = Vec(L)]
Ground == net.n > 0 /\ (\E i \in {6, 7, 8} \ DOMAIN net.fixed : net' = Fix(net, i, 0)) /\ UNCHANGED <<mat, used>>
Next == Mark \/ Assemble \/ Ground
Spec == Init /\ [][Next]_vars

RECURSIVE Gauss(_, _)
Gauss(W, k) == IF k > N THEN W ELSE
  LET p == CHOOSE p \in k .. N : \A q \in k .. N : RAbs(W[q][k]) \preceq RAbs(W[p][k])
      S == TLCEval([W EXCEPT ![k] = W[p], ![p] = W[k]])
      U == TLCEval([i \in 1 .. N |-> IF i = k THEN TLCEval([j \in 1 .. N + 1 |-> S[k][j] (/) S[k][k]])
                     ELSE LET f == S[i][k] (/) S[k][k] IN TLCEval([j \in 1 .. N + 1 |-> S[i][j] (-) (f (.) S[k][j])])])
  IN Gauss(U, k + 1)
Solve(b) == LET W == TLCEval([i \in 1 .. N |-> TLCEval([j \in 1 .. N + 1 |-> IF j = N + 1 THEN b[i] ELSE Entry(net.A, i, j)])]) G == Gauss(W, 1) IN TLCEval([i \in 1 .. N |-> G[i][N + 1]])
Ready == net.n > 0 /\ DOMAIN net.fixed = {6, 7, 8}
(* ---- invariants ---- *)
T30 == TenTo(-30)
Glued == /\ Closed(Mesh) /\ AllUsed(Mesh) /\ IndicesOk(Mesh)
         /\ OutOf(Mesh, R(1)) = {6, 7, 8} /\ OnCircle(Mesh, R(1)) = 1 .. 4 /\ Outer(Mesh, {6, 7, 8}) = 5 .. 12
         /\ \A p \in {Disc[v] : v \in 6 .. 8} : PEq(Invert(Invert(p, R(1)), R(1)), p) /\ R(1) \prec PNorm2(Invert(p, R(1)))
         /\ LET P == CirclePolygon(Mesh, 1 .. 4) I == [Mesh EXCEPT !.pts = Inverted(Mesh, {6, 7, 8}, R(1))] IN
            /\ SumOver(1 .. 4, LAMBDA t : Twice(Mesh, t)) \doteq RAbs(Area2(P))
            /\ Near(SumOver(5 .. 12, LAMBDA t : RAbs(Twice(I, t))), RAbs(Area2(P)), T30)
         /\ AreFurthest(Mesh, {6, 7, 8}) /\ ~AreFurthest(Mesh, {5, 6, 7})
Ones == TLCEval([i \in 1 .. N |-> R(1)])
NoNetFlow == net.n > 0 => LET y == RowSums(net.A0, N, Ones) IN \A i \in 1 .. N : Near(y[i][1], 0, T30)
MagnetsBalance == net.n = 0 =>
  LET m == Vec(Load(Mesh, LAMBDA t : R(0), LAMBDA t : MatAt(t).M, LAMBDA t : MatAt(t).id)) e == Vec(MagnetElements(Mesh, LAMBDA t : MatAt(t).M)) IN
  /\ Near(RSum(m), 0, T30) /\ \A i \in 1 .. N : Near(m[i], e[i], T30)
  /\ Near(RSum(Vec(L)), RSum([t \in 1 .. 4 |-> (MatAt(t).J (.) Twice(Mesh, t)) (/) 2]), T30)
Constrained == \A i \in DOMAIN net.fixed : net.fixed[i] \doteq 0 /\ net.b[i] \doteq 0 /\ Entry(net.A, i, i) \doteq 1 /\ \A p \in Beside(net.A, i) : net.A[p] \doteq 0
GroundSeen == net.n > 0 => Grounded(net.A, N) = DOMAIN net.fixed
Curls(x) == TLCEval([t \in 1 .. 12 |-> PMul(Rot(Grad2(Mesh, t, x)), R(1) (/) Twice(Mesh, t))])
Physics == Ready => LET x == Solve(net.b) y == Solve(TLCEval([i \in 1 .. N |-> RNeg(net.b[i])])) B == Curls(x) IN
  /\ SolvesNet(net, x, T30)
  /\ \A i \in 1 .. N : Near(y[i], RNeg(x[i]), T30)
  /\ (\A i \in 1 .. N : net.b[i] \doteq 0) => \A i \in 1 .. N : x[i] \doteq 0
  /\ Near(RDot(x, net.b), RSum([t \in 1 .. 12 |-> (PNorm2(B[t]) (.) RAbs(Twice(Mesh, t))) (/) (2 (.) MatAt(t).mu)]), T30)          \* energy
  \* action and reaction; forces are quadratic in the field; nothing is exerted through a constant weight
  /\ LET g == TLCEval([i \in 1 .. N |-> IF i = 5 THEN R(1) ELSE IF i = 1 THEN RQ(1, 3) ELSE R(0)])
         h == TLCEval([i \in 1 .. N |-> R(1) (-) g[i]]) B3 == TLCEval([t \in 1 .. 12 |-> PMul(B[t], R(3))])
         f == ShellForce(Mesh, g, B) fh == ShellForce(Mesh, h, B) f3 == ShellForce(Mesh, g, B3) T20 == TenTo(-20)
         q == ShellTorque(Mesh, g, B, Z(1, 2)) q0 == ShellTorque(Mesh, g, B, Z(0, 0))
     IN /\ \A k \in 1 .. 2 : Near(f[k] (+) fh[k], 0, T20) /\ Near(f3[k], 9 (.) f[k], T20)
        /\ Varies(Mesh, Ones) = {}
        /\ Near(q[1], q0[1] (-) PCross(Z(1, 2), <<f[1], f[2]>>), T20)          \* moving the centre
=============================================================================
