---------------------------- MODULE MC_Conduction ----------------------------
\* Exhaustive: two layers (a square of two triangles, one triangle), every set of up to NR resistors from a list (parallel,
\* chained, within a layer, on one vertex), prescriptions by vertex in every order and by position.
EXTENDS Conduction
CONSTANTS NR, NF
VARIABLES rs,    \* resistors
          net,   \* the system
          done   \* assembled
vars == <<rs, net, done>>
Z(a, b) == <<R(a), R(b)>>
L1 == [pts |-> <<Z(0, 0), Z(2, 0), Z(2, 2), Z(0, 2)>>, tris |-> <<<<1, 2, 3>>, <<1, 3, 4>>>>, attr |-> <<0, 1>>]
L2 == [pts |-> <<Z(0, 0), Z(2, 0), Z(1, 3)>>, tris |-> <<<<1, 2, 3>>>>, attr |-> <<0>>]
Ls == <<L1, L2>>
Sizes == <<4, 3>>
Sig(l, t) == IF l = 1 THEN (IF t = 1 THEN R(2) ELSE R(5)) ELSE R(3)
Dep == <<RQ(1, 2), R(2)>>
Blocks == TLCEval([l \in 1 .. 2 |-> Values(LayerSystem(Ls[l], LAMBDA t : Sig(l, t), Dep[l]))])
\* <<vertex, vertex, resistance>>
Choices == <<<<1, 5, R(1)>>, <<1, 5, R(4)>>, <<5, 1, R(2)>>, <<3, 7, RQ(1, 2)>>, <<1, 6, R(8)>>, <<2, 4, R(1)>>, <<3, 3, R(2)>>, <<1, 3, R(1)>>>>
Volts(i) == <<R(0), R(5), R(1), R(-3), R(7), R(2), R(4)>>[i]
N == 7
Init == rs = <<>> /\ net = [n |-> 0, A |-> <<>>, A0 |-> <<>>, b |-> <<>>, fixed |-> <<>>] /\ done = FALSE
Connect == ~done /\ Len(rs) < NR /\ (\E k \in 1 .. Len(Choices) : rs' = Append(rs, Choices[k])) /\ UNCHANGED <<net, done>>
Assemble == ~done /\ done' = TRUE /\ net' = MkSys(N, StampAll(Merged(Sizes, Blocks), rs)) /\ UNCHANGED rs
Prescribe == done /\ Cardinality(DOMAIN net.fixed) < NF /\ (\E i \in 1 .. N : i \notin DOMAIN net.fixed /\ net' = Fix(net, i, Volts(i))) /\ UNCHANGED <<rs, done>>
Again == done /\ (\E i \in DOMAIN net.fixed : net' = Fix(net, i, Volts(i))) /\ UNCHANGED <<rs, done>>
Next == Connect \/ Assemble \/ Prescribe \/ Again
Spec == Init /\ [][Next]_vars
(* ---- exact solution by elimination ---- *)
RECURSIVE Gauss(_, _)
Gauss(W, k) == IF k > N THEN W ELSE
  LET p == CHOOSE p \in k .. N : \A q \in k .. N : RAbs(W[q][k]) \preceq RAbs(W[p][k])
      S == TLCEval([W EXCEPT ![k] = W[p], ![p] = W[k]])
      U == TLCEval([i \in 1 .. N |-> IF i = k THEN TLCEval([j \in 1 .. N + 1 |-> S[k][j] (/) S[k][k]])
                     ELSE LET f == S[i][k] (/) S[k][k] IN TLCEval([j \in 1 .. N + 1 |-> S[i][j] (-) (f (.) S[k][j])])])
  IN Gauss(U, k + 1)
Solution == LET W == TLCEval([i \in 1 .. N |-> TLCEval([j \in 1 .. N + 1 |-> IF j = N + 1 THEN net.b[i] ELSE Entry(net.A, i, j)])]) G == Gauss(W, 1) IN TLCEval([i \in 1 .. N |-> G[i][N + 1]])
\* every vertex reaches a prescribed one
Reached == LET RECURSIVE Go(_) Go(S) == LET T == S \cup {i \in 1 .. N : \E j \in S : Entry(net.A0, i, j) # R(0) /\ ~(Entry(net.A0, i, j) \doteq 0)} IN IF T = S THEN S ELSE Go(T) IN Go(DOMAIN net.fixed)
Solvable == done /\ DOMAIN net.fixed # {} /\ Reached = 1 .. N
(* ---- invariants ---- *)
T30 == TenTo(-30)
RowsSumToZero == done => \A i \in 1 .. N : Near(SumP(RowOf(net.A0, i), LAMBDA p : IF p[1] = p[2] THEN net.A0[p] ELSE net.A0[p]), 0, T30)
BlocksApart == done => \A i \in 1 .. 4, j \in 5 .. 7 : Near(Entry(net.A0, i, j), RNeg(RSum([k \in 1 .. Len(rs) |-> IF Pr(rs[k][1], rs[k][2]) = <<i, j>> THEN R(1) (/) rs[k][3] ELSE R(0)])), T30)
AlwaysConstrained == done => IsConstrainedNet(net)
Physics == Solvable => LET x == Solution IN
  /\ SolvesNet(net, x, T30)
  /\ Within(net, x, T30)
  /\ \A i \in (1 .. N) \ DOMAIN net.fixed : Near(RowSums(net.A0, N, x)[i][1], 0, T30)          \* current balance
  /\ LET P(l) == TLCEval([t \in Ts(Ls[l]) |-> PowerDensity(Ls[l], t, TLCEval([v \in Vs(Ls[l]) |-> x[v + Offset(Sizes, l)]]), Sig(l, t))])
         loss == (LayerLoss(L1, P(1), Dep[1]) (+) LayerLoss(L2, P(2), Dep[2])) (+) ResistorLoss(rs, x)
     IN Near(loss, FedAtFixed(net.A0, N, x, DOMAIN net.fixed), T30) /\ Near(loss, Fed(net.A0, N, x), T30)
NearestIsNearest == \A l \in 1 .. 2, a, b \in -1 .. 3 : LET S == Nearest(Ls[l], Z(a, b)) IN S # {} /\ \A v \in S, w \in Vs(Ls[l]) : PDist2(Ls[l].pts[v], Z(a, b)) \preceq PDist2(Ls[l].pts[w], Z(a, b))
=============================================================================
