------------------------------- MODULE Meshing -------------------------------
(***************************************************************************)
(* Triangle meshes of drawings (C13, C14), fields on them (C15), section   *)
(* properties of shapes (C16) and the hat-function forms on which both     *)
(* simulators are built (C17, C22).                                        *)
(* lib/nikfemm/src/mesh/mesh.hpp, current_density/mesh.cpp                 *)
(*                                                                         *)
(* m.pts  : sequence of vertices       m.tris : sequence of <<i, j, k>>    *)
(* m.attr : label of each triangle                                         *)
(***************************************************************************)
EXTENDS Plane

Ts(M) == 1 .. Len(M.tris)
Vs(M) == 1 .. Len(M.pts)
Nx3(k) == IF k = 3 THEN 1 ELSE k + 1
Corner3(M, t) == <<M.pts[M.tris[t][1]], M.pts[M.tris[t][2]], M.pts[M.tris[t][3]]>>
Twice(M, t) == LET c == Corner3(M, t) IN Orient(c[1], c[2], c[3])          \* twice the signed area
Centroid(M, t) == LET c == Corner3(M, t) IN PMul(PAdd(PAdd(c[1], c[2]), c[3]), RQ(1, 3))
InTri(M, t, p) == LET c == Corner3(M, t) IN Side(c[1], c[2], p) >= 0 /\ Side(c[2], c[3], p) >= 0 /\ Side(c[3], c[1], p) >= 0

(* ---- the mesh as a complex ---- *)
Directed(M) == TLCEval({<<M.tris[t][k], M.tris[t][Nx3(k)]>> : t \in Ts(M), k \in 1 .. 3})
Undirected(E) == TLCEval({IF e[1] < e[2] THEN e ELSE <<e[2], e[1]>> : e \in E})
Rim(E) == {e \in E : <<e[2], e[1]>> \notin E}
IndicesOk(M) == \A t \in Ts(M) : LET v == M.tris[t] IN v[1] \in Vs(M) /\ v[2] \in Vs(M) /\ v[3] \in Vs(M) /\ v[1] # v[2] /\ v[2] # v[3] /\ v[3] # v[1]
Positive(M) == \A t \in Ts(M) : R(0) \prec Twice(M, t)
\* no two triangles on the same side of an edge
EdgeToEdge(M, E) == Cardinality(E) = 3 * Len(M.tris)
AllUsed(M) == {M.tris[t][k] : t \in Ts(M), k \in 1 .. 3} = Vs(M)
Conforming(M) == IndicesOk(M) /\ Positive(M) /\ EdgeToEdge(M, Directed(M)) /\ AllUsed(M)

(* ---- the mesh and the drawn segments; ends: sequence of <<a, b>> ---- *)
\* vertices along each segment, in order
Along(M, ends, tol) == TLCEval([n \in 1 .. Len(ends) |-> TLCEval(
  LET a == ends[n][1] b == ends[n][2] u == PSub(b, a)
      lo == <<RMin(a[1], b[1]) (-) tol, RMin(a[2], b[2]) (-) tol>> hi == <<RMax(a[1], b[1]) (+) tol, RMax(a[2], b[2]) (+) tol>>
      on == {v \in Vs(M) : LET p == M.pts[v] IN lo[1] \preceq p[1] /\ p[1] \preceq hi[1] /\ lo[2] \preceq p[2] /\ p[2] \preceq hi[2] /\ SegDist2(p, a, b) \preceq (tol (.) tol)}
  IN SortSeq(KeepSeq([v \in Vs(M) |-> v], on), LAMBDA x, y : PDot(PSub(M.pts[x], a), u) \prec PDot(PSub(M.pts[y], a), u)))])
Links(ch) == TLCEval(UNION {{IF ch[n][k] < ch[n][k + 1] THEN <<ch[n][k], ch[n][k + 1]>> ELSE <<ch[n][k + 1], ch[n][k]>> : k \in 1 .. Len(ch[n]) - 1} : n \in 1 .. Len(ch)})
\* every segment is a chain of edges between its end points
ChainsPresent(M, ends, ch, U, tol) == /\ Links(ch) \subseteq U
  /\ \A n \in 1 .. Len(ends) : Len(ch[n]) >= 2 /\ PNear(M.pts[ch[n][1]], ends[n][1], tol) /\ PNear(M.pts[ch[n][Len(ch[n])]], ends[n][2], tol)
\* and no edge along a segment jumps over a vertex
NoJumps(ch, U) == LET L == Links(ch) IN \A n \in 1 .. Len(ch) : LET on == {ch[n][k] : k \in 1 .. Len(ch[n])} IN \A e \in U : e[1] \in on /\ e[2] \in on => e \in L
\* (with the angle constraint off, the mesher may put a vertex a rounding error beside a segment: the edge along the segment then passes it)
RimOnSegments(E, ch) == LET L == Links(ch) on == TLCEval([n \in 1 .. Len(ch) |-> {ch[n][k] : k \in 1 .. Len(ch[n])}]) IN
  \A e \in Undirected(Rim(E)) : e \in L \/ \E n \in 1 .. Len(ch) : e[1] \in on[n] /\ e[2] \in on[n]
PointsKept(M, pts, tol) == \A k \in 1 .. Len(pts) : \E v \in Vs(M) : RAbs(M.pts[v][1] (-) pts[k][1]) \preceq tol /\ RAbs(M.pts[v][2] (-) pts[k][2]) \preceq tol
\* triangles of the mesh inside the outline P
\* (a triangle of the exterior, glued on around the drawing, may have its centroid anywhere: its corners are far away)
Inside(M, P) == LET r == RMaxSeq([k \in 1 .. Len(P) |-> PMaxAbs(PSub(P[k], P[1]))]) (.) (R(1) (+) E9) IN
  TLCEval({t \in Ts(M) : (\A k \in 1 .. 3 : PMaxAbs(PSub(M.pts[M.tris[t][k]], P[1])) \preceq r) /\ Interior(P, Centroid(M, t))})
SumOver(S, f(_)) == LET s == TLCEval({<<t, f(t)>> : t \in S}) RECURSIVE Go(_) Go(x) == IF x = {} THEN R(0) ELSE LET e == CHOOSE e \in x : TRUE IN e[2] (+) Go(x \ {e}) IN Go(s)
Covered(M, P) == LET S == Inside(M, P) a == SumOver(S, LAMBDA t : Twice(M, t)) b == RAbs(Area2(P)) IN NearRel(a, b, b, E9)
MaxArea(M, lim) == LET l == (2 (.) lim) (.) (R(1) (+) E9) IN \A t \in Ts(M) : Twice(M, t) \preceq l
\* every angle at least deg degrees; except in triangles whose shortest edge cuts a corner between two segments that
\* share an end, which the mesher leaves alone
OnTwo(ends, ch, x, y, tol) == \E m, n \in 1 .. Len(ch) : m # n /\ (\E k \in 1 .. Len(ch[m]) : ch[m][k] = x) /\ (\E k \in 1 .. Len(ch[n]) : ch[n][k] = y)
  /\ \E i, j \in {1, 2} : PNear(ends[m][i], ends[n][j], tol)
MinAngle(M, deg, ends, ch, tol) == LET c == RCos((RPi (.) R(deg)) (/) 180) (+) E9 IN
  \A t \in Ts(M) : LET p == Corner3(M, t) IN
    \/ \A k \in 1 .. 3 : LET u == PSub(p[Nx3(k)], p[k]) v == PSub(p[Nx3(Nx3(k))], p[k]) g == PDot(u, v) IN
         g \preceq 0 \/ (g (.) g) \preceq ((c (.) c) (.) (PNorm2(u) (.) PNorm2(v)))
    \/ LET e(k) == PDist2(p[k], p[Nx3(k)]) k == CHOOSE k \in 1 .. 3 : \A j \in 1 .. 3 : e(k) \preceq e(j) IN OnTwo(ends, ch, M.tris[t][k], M.tris[t][Nx3(k)], tol)
\* the angle between any two segments that share an end is at least 60 degrees
Blunt(ends, tol) == \A j, k \in 1 .. Len(ends) : j < k => \A x, y \in {1, 2} :
  PNear(ends[j][x], ends[k][y], tol) => LET u == PSub(ends[j][3 - x], ends[j][x]) v == PSub(ends[k][3 - y], ends[k][y]) g == PDot(u, v) IN
     g \preceq 0 \/ (4 (.) (g (.) g)) \preceq ((R(1) (+) E9) (.) (PNorm2(u) (.) PNorm2(v)))

(* ---- labels ---- *)
\* triangles on both sides of an edge that is not along a segment carry one label
LabelsUniform(M, ch) ==
  LET L0 == Links(ch)
      on == TLCEval([n \in 1 .. Len(ch) |-> {ch[n][k] : k \in 1 .. Len(ch[n])}])
      L == TLCEval(L0 \cup {e \in Undirected(Directed(M)) : \E n \in 1 .. Len(ch) : e[1] \in on[n] /\ e[2] \in on[n]})
      T == TLCEval({<<M.tris[t][k], M.tris[t][Nx3(k)], M.attr[t]>> : t \in Ts(M), k \in 1 .. 3})
      E == Directed(M)
  IN \A x \in T : <<x[2], x[1]>> \in E => (<<x[2], x[1], x[3]>> \in T \/ (IF x[1] < x[2] THEN <<x[1], x[2]>> ELSE <<x[2], x[1]>>) \in L)
Holders(M, p) == {t \in Ts(M) : InTri(M, t, p)}

(* ---- fields: z a value per vertex ---- *)
\* twice the area times the gradient
Grad2(M, t, z) == LET v == M.tris[t] p == Corner3(M, t)
                      u == PSub(p[2], p[1]) w == PSub(p[3], p[1]) f == z[v[2]] (-) z[v[1]] g == z[v[3]] (-) z[v[1]]
                  IN <<(f (.) w[2]) (-) (g (.) u[2]), (g (.) u[1]) (-) (f (.) w[1])>>
Rot(g) == <<g[2], RNeg(g[1])>>
FieldTol(M, t, z) == LET v == M.tris[t] p == Corner3(M, t) a == RAbs(Twice(M, t))
                         l2 == RMaxSeq(<<PDist2(p[1], p[2]), PDist2(p[2], p[3]), PDist2(p[3], p[1])>>)
                         zm == RMaxSeq(<<RAbs(z[v[1]]), RAbs(z[v[2]]), RAbs(z[v[3]])>>)
                     IN (E12 (.) (l2 (/) a)) (.) ((RSqrt(l2) (.) zm) (/) a)
GradIs(M, t, z, g) == LET e == Grad2(M, t, z) a == Twice(M, t) tol == FieldTol(M, t, z) IN Near(g[1], e[1] (/) a, tol) /\ Near(g[2], e[2] (/) a, tol)
CurlIs(M, t, z, g) == LET e == Rot(Grad2(M, t, z)) a == Twice(M, t) tol == FieldTol(M, t, z) IN Near(g[1], e[1] (/) a, tol) /\ Near(g[2], e[2] (/) a, tol)

(* ---- section properties ---- *)
PBary(P) == LET n == Len(P) q == TLCEval([k \in 1 .. n |-> PCross(P[k], P[Nxt(k, n)])]) a == RSum(q) IN
            <<RSum([k \in 1 .. n |-> q[k] (.) (P[k][1] (+) P[Nxt(k, n)][1])]) (/) (3 (.) a), RSum([k \in 1 .. n |-> q[k] (.) (P[k][2] (+) P[Nxt(k, n)][2])]) (/) (3 (.) a)>>
\* polar second moment of area about c
PPolar(P0, c) == LET P == TLCEval(Shift(P0, <<RNeg(c[1]), RNeg(c[2])>>)) n == Len(P) IN
  RAbs(RSum([k \in 1 .. n |-> PCross(P[k], P[Nxt(k, n)]) (.) ((PDot(P[k], P[k]) (+) PDot(P[k], P[Nxt(k, n)])) (+) PDot(P[Nxt(k, n)], P[Nxt(k, n)]))])) (/) 12
\* what a rule that concentrates each triangle at its centroid leaves out
CentroidError(M, S) == SumOver(S, LAMBDA t : LET p == Corner3(M, t) IN (RAbs(Twice(M, t)) (.) ((PDist2(p[1], p[2]) (+) PDist2(p[2], p[3])) (+) PDist2(p[3], p[1]))) (/) 72)

(* ---- hat functions: integral over triangle t of grad(i) . grad(j), i and j positions 1..3 ---- *)
Opp(M, t, k) == LET p == Corner3(M, t) IN PSub(p[Nx3(Nx3(k))], p[Nx3(k)])
Stiff(M, t, x, y) == PDot(Opp(M, t, x), Opp(M, t, y)) (/) (2 (.) RAbs(Twice(M, t)))
\* ... and the scale of its rounding
StiffScale(M, t, x, y) == LET u == Opp(M, t, x) v == Opp(M, t, y) IN (RAbs(u[1] (.) v[1]) (+) RAbs(u[2] (.) v[2])) (/) (2 (.) RAbs(Twice(M, t)))
\* the matrix as a function on pairs i <= j: <<value, scale of its rounding>>; weight(t)
Laplacian(M, weight(_)) ==
  LET cell(t, w, x, y) == LET i == M.tris[t][x] j == M.tris[t][y] IN <<IF i <= j THEN i ELSE j, IF i <= j THEN j ELSE i, w (.) Stiff(M, t, x, y), RAbs(w) (.) StiffScale(M, t, x, y)>>
      cells == TLCEval([t \in Ts(M) |-> LET w == weight(t) IN <<cell(t, w, 1, 1), cell(t, w, 2, 2), cell(t, w, 3, 3), cell(t, w, 1, 2), cell(t, w, 2, 3), cell(t, w, 3, 1)>>])
  IN RAssemble(cells)
=============================================================================
