------------------------------ MODULE Conduction ------------------------------
(***************************************************************************)
(* Current flow in one or several conducting layers (C17 - C21).           *)
(* lib/nikfemm/src/current_density                                         *)
(*                                                                         *)
(* A layer is a triangle mesh with a conductivity per triangle and a       *)
(* thickness.  Layers are joined by resistors between vertices.  The       *)
(* network they form is  sum over j of G(i,j) V(j) = 0  at every vertex,   *)
(* vertices numbered 1.. through all the layers in order.  Prescribing a   *)
(* voltage replaces the equation of a vertex.                              *)
(*                                                                         *)
(* A system is [n, A, b, A0, fixed]:  A, A0 : pairs i <= j |-> number      *)
(* (absent = 0), b : 1..n |-> number, fixed : prescribed vertex |-> volts. *)
(***************************************************************************)
EXTENDS Meshing

Pr(i, j) == IF i <= j THEN <<i, j>> ELSE <<j, i>>
Entry(A, i, j) == IF Pr(i, j) \in DOMAIN A THEN A[Pr(i, j)] ELSE R(0)
MkSys(n, A) == [n |-> n, A |-> A, A0 |-> A, b |-> TLCEval([i \in 1 .. n |-> R(0)]), fixed |-> <<>>]
\* other end of each stored pair at i
Beside(A, i) == {p \in DOMAIN A : (p[1] = i) # (p[2] = i)}
OtherEnd(p, i) == IF p[1] = i THEN p[2] ELSE p[1]

Values(F) == TLCEval([p \in DOMAIN F |-> F[p][1]])
(* ---- assembly ---- *)
\* one layer: entries <<value, scale of its rounding>>
LayerSystem(M, sigma(_), depth) == Laplacian(M, LAMBDA t : depth (.) sigma(t))
Offset(sizes, l) == LET RECURSIVE Go(_) Go(k) == IF k = 0 THEN 0 ELSE sizes[k] + Go(k - 1) IN Go(l - 1)
\* layers one after the other: blocks[l] : pairs |-> number
Merged(sizes, blocks) == LET off == TLCEval([l \in 1 .. Len(sizes) |-> Offset(sizes, l)])
                             q == TLCEval([l \in 1 .. Len(sizes) |-> LET B == TLCEval(blocks[l]) k == TLCEval(SeqOf(DOMAIN B)) IN TLCEval([n \in 1 .. Len(k) |-> <<k[n][1] + off[l], k[n][2] + off[l], B[k[n]], R(0)>>])])
                         IN Values(RAssemble(q))
\* a resistor between two vertices; between a vertex and itself it changes nothing
Stamp(A, i, j, r) == IF i = j THEN A ELSE
  LET g == R(1) (/) r IN TLCEval([p \in DOMAIN A \cup {<<i, i>>, <<j, j>>, Pr(i, j)} |->
     IF p \in {<<i, i>>, <<j, j>>} THEN Entry(A, p[1], p[2]) (+) g ELSE IF p = Pr(i, j) THEN Entry(A, i, j) (-) g ELSE A[p]])
RECURSIVE StampAll(_, _)
StampAll(A, rs) == IF rs = <<>> THEN A ELSE StampAll(TLCEval(Stamp(A, rs[1][1], rs[1][2], rs[1][3])), Tail(rs))      \* rs: <<i, j, resistance>>
\* vertices at position p (there is one when p is a drawn point)
VertexAt(M, p, tol) == {v \in Vs(M) : PNear(M.pts[v], p, tol)}

(* ---- prescription ---- *)
\* the vertices nearest to p, with an allowance for the rounding of distances
Nearest(M, p) == LET q == TLCEval([v \in Vs(M) |-> PDist2(M.pts[v], p)]) m == RMinSeq(q) IN {v \in Vs(M) : q[v] \preceq (m (.) (R(1) (+) E12))}
Fix(s, i, v) ==
  LET hit == TLCEval(Beside(s.A, i)) IN
  [s EXCEPT !.A = TLCEval([p \in DOMAIN s.A \cup {<<i, i>>} |-> IF p = <<i, i>> THEN R(1) ELSE IF p \in hit THEN R(0) ELSE s.A[p]]),
            !.b = TLCEval(LET o == {OtherEnd(p, i) : p \in hit} IN [j \in 1 .. s.n |-> IF j = i THEN R(v) ELSE IF j \in o THEN s.b[j] (-) (Entry(s.A, i, j) (.) v) ELSE s.b[j]]),
            !.fixed = TLCEval([j \in DOMAIN s.fixed \cup {i} |-> IF j = i THEN R(v) ELSE s.fixed[j]])]
CanFix(s, i, v) == i \in DOMAIN s.fixed => s.fixed[i] \doteq v

(* ---- what a prescription must leave: the constrained problem ---- *)
RowOf(A, i) == {p \in DOMAIN A : p[1] = i \/ p[2] = i}
SumP(S, f(_)) == LET s == TLCEval({<<p, f(p)>> : p \in S}) RECURSIVE Go(_) Go(x) == IF x = {} THEN R(0) ELSE LET e == CHOOSE e \in x : TRUE IN e[2] (+) Go(x \ {e}) IN Go(s)
IsConstrainedNet(s) ==
  LET f == DOMAIN s.fixed IN
  /\ \A p \in DOMAIN s.A0 \cup DOMAIN s.A : Entry(s.A, p[1], p[2]) \doteq (IF p[1] \in f /\ p[1] = p[2] THEN R(1) ELSE IF p[1] \in f \/ p[2] \in f THEN R(0) ELSE Entry(s.A0, p[1], p[2]))
  /\ \A i \in 1 .. s.n : s.b[i] \doteq (IF i \in f THEN s.fixed[i] ELSE RNeg(SumP({p \in Beside(s.A0, i) : OtherEnd(p, i) \in f}, LAMBDA p : s.A0[p] (.) s.fixed[OtherEnd(p, i)])))

(* ---- solution ---- *)
\* (RowSums: ExactReal)
\* x solves A x = b with residual norm at most tol, up to rounding
SolvesNet(s, x, tol) ==
  /\ Len(x) = s.n /\ \A i \in 1 .. s.n : RFin(x[i])
  /\ LET y == RowSums(s.A, s.n, x)
         r == TLCEval([i \in 1 .. s.n |-> y[i][1] (-) s.b[i]])
         drift == RMaxSeq([i \in 1 .. s.n |-> y[i][2] (+) RAbs(s.b[i])])
         lim == (RQ(11, 10) (.) tol) (+) (E12 (.) drift)
     IN /\ RDot(r, r) \preceq (lim (.) lim)
        /\ \A i \in DOMAIN s.fixed : Near(x[i], s.fixed[i], lim)
FixedVals(s) == {s.fixed[i] : i \in DOMAIN s.fixed}
MinMax(s) == LET q == SeqOf(FixedVals(s)) IN <<RMinSeq(q), RMaxSeq(q)>>
Within(s, x, slack) == LET m == MinMax(s) IN \A i \in 1 .. s.n : (m[1] (-) slack) \preceq x[i] /\ x[i] \preceq (m[2] (+) slack)
NoObtuse(M) == \A t \in Ts(M), k \in 1 .. 3 : LET p == Corner3(M, t) IN R(0) \preceq PDot(PSub(p[Nx3(k)], p[k]), PSub(p[Nx3(Nx3(k))], p[k]))
\* (connected conductors: every vertex reaches a prescribed one; assumed of the problems that are solved)

(* ---- power ---- *)
\* sigma |grad V|^2 on triangle t
PowerDensity(M, t, z, sigma) == LET g == Grad2(M, t, z) a == Twice(M, t) IN sigma (.) (PNorm2(g) (/) (a (.) a))
PowerIs(M, t, z, sigma, P) == LET e == Grad2(M, t, z) a == RAbs(Twice(M, t)) tol == FieldTol(M, t, z) n == RSqrt(PNorm2(e)) (/) a IN
  Near(P, sigma (.) (n (.) n), (sigma (.) (4 (.) tol)) (.) (n (+) tol))
\* loss in the layer
LayerLoss(M, P, depth) == RSum([t \in Ts(M) |-> (P[t] (.) (RAbs(Twice(M, t)) (/) 2)) (.) depth])
ResistorLoss(rs, x) == RSum([k \in 1 .. Len(rs) |-> ((x[rs[k][1]] (-) x[rs[k][2]]) (.) (x[rs[k][1]] (-) x[rs[k][2]])) (/) rs[k][3]])
\* power fed in at the vertices: V times the current that leaves through the network
Fed(A, n, x) == LET y == RowSums(A, n, x) IN RSum([i \in 1 .. n |-> x[i] (.) y[i][1]])
FedScale(A, n, x) == LET y == RowSums(A, n, x) IN RSum([i \in 1 .. n |-> RAbs(x[i]) (.) y[i][2]])
FedAtFixed(A, n, x, F) == LET y == RowSums(A, n, x) IN RSum([i \in 1 .. n |-> IF i \in F THEN x[i] (.) y[i][1] ELSE R(0)])
=============================================================================
