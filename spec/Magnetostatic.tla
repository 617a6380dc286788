----------------------------- MODULE Magnetostatic -----------------------------
(***************************************************************************)
(* Plane magnetostatics with an open boundary (C22 - C26).                 *)
(* lib/nikfemm/src/magnetostatic, mesh/mesh.hpp                            *)
(*                                                                         *)
(* The plane is a circle, meshed, and its outside, meshed through the      *)
(* inversion in the circle and joined to the inside at the circle: a mesh  *)
(* of a sphere.  Every triangle has a permeability, a current density and  *)
(* a magnetisation.  The potential A solves                                *)
(*    sum over j of K(i,j) A(j) = current and surface current at vertex i  *)
(* with K the hat-function form weighted by 1 / permeability, and A = 0 at *)
(* the three vertices furthest away.                                       *)
(***************************************************************************)
EXTENDS Conduction

MU0 == (4 (.) RPi) (.) TenTo(-7)
(* ---- the equations ---- *)
Reluctance(M, mu(_)) == Laplacian(M, LAMBDA t : R(1) (/) mu(t))
\* surface current M x n of the edge from p to q of a counter-clockwise triangle, times the length of the edge
EdgeCurrent(mg, p, q) == RNeg(PDot(mg, PSub(q, p)))
EdgeScale(mg, p, q) == LET u == PSub(q, p) IN RAbs(mg[1] (.) u[1]) (+) RAbs(mg[2] (.) u[2])
Ccw(M, t) == IF Twice(M, t) \prec R(0) THEN <<M.tris[t][1], M.tris[t][3], M.tris[t][2]>> ELSE M.tris[t]
\* load per vertex, as entries <<v, v>> |-> <<value, scale of its rounding>>:  a third of the current of every triangle to
\* each vertex; half of the surface current of every edge of the outline of a magnetised area to each of its ends.
\* cur(t), mag(t): current density and magnetisation of a triangle; magid(t): equal for equal magnetisation, 0 for none
Load(M, cur(_), mag(_), magid(_)) ==
  LET cw == TLCEval([t \in Ts(M) |-> Ccw(M, t)])
      id == TLCEval([t \in Ts(M) |-> magid(t)])
      inner == TLCEval({<<cw[t][k], cw[t][Nx3(k)], id[t]>> : t \in {t \in Ts(M) : id[t] # 0}, k \in 1 .. 3})
      curcell(t, k) == LET w == (cur(t) (.) RAbs(Twice(M, t))) (/) 6 IN <<cw[t][k], cw[t][k], w, RAbs(w)>>
      edgecells(t, k) == LET u == cw[t][k] v == cw[t][Nx3(k)]
                             c == IF <<v, u, id[t]>> \in inner THEN R(0) ELSE EdgeCurrent(mag(t), M.pts[u], M.pts[v]) (/) 2
                             s == EdgeScale(mag(t), M.pts[u], M.pts[v])
                         IN <<<<u, u, c, s>>, <<v, v, c, s>>>>
      cells == TLCEval([t \in Ts(M) |-> <<curcell(t, 1), curcell(t, 2), curcell(t, 3)>>
                          \o (IF id[t] = 0 THEN <<>> ELSE edgecells(t, 1) \o edgecells(t, 2) \o edgecells(t, 3))])
  IN RAssemble(cells)
\* the same, of the magnets only, triangle by triangle: integral of M x grad(hat function)
MagnetElements(M, mag(_)) ==
  RAssemble(TLCEval([t \in Ts(M) |-> LET c == Ccw(M, t) IN [k \in 1 .. 3 |->
     LET e == PSub(M.pts[c[Nx3(Nx3(k))]], M.pts[c[Nx3(k)]]) IN <<c[k], c[k], PDot(mag(t), e) (/) 2, R(0)>>]]))

(* ---- the open boundary ---- *)
\* inversion in the circle of radius r about the origin
Invert(p, r) == PMul(p, (r (.) r) (/) PNorm2(p))
FarAway(p, r) == ((9999 (.) r) (.) r) \preceq PNorm2(p)          \* 100 radii, where the exterior is cut off
OutOf(M, r) == LET q == (r (.) r) (.) (R(1) (+) E9) IN TLCEval({v \in Vs(M) : q \prec PNorm2(M.pts[v])})
OnCircle(M, r) == LET q == r (.) r IN TLCEval({v \in Vs(M) : Near(PNorm2(M.pts[v]), q, E9 (.) q)})
Outer(M, out) == TLCEval({t \in Ts(M) : \E k \in 1 .. 3 : M.tris[t][k] \in out})
\* number of triangles at every edge
EdgeCounts(M) == RAssemble(TLCEval([t \in Ts(M) |-> [k \in 1 .. 3 |-> LET u == M.tris[t][k] v == M.tris[t][Nx3(k)] IN <<IF u < v THEN u ELSE v, IF u < v THEN v ELSE u, R(1), R(0)>>]]))
Closed(M) == LET c == EdgeCounts(M) IN (\A e \in DOMAIN c : c[e][1] \doteq 2) /\ Len(M.pts) - Cardinality(DOMAIN c) + Len(M.tris) = 2
\* the vertices on the circle in order, as a polygon
CirclePolygon(M, on) == LET q == SortSeq(SeqOf(on), LAMBDA x, y : RAtan2(M.pts[x][2], M.pts[x][1]) \prec RAtan2(M.pts[y][2], M.pts[y][1])) IN TLCEval([k \in 1 .. Len(q) |-> M.pts[q[k]]])
\* the outside seen through the inversion; triangles with a vertex cut off are left out of areas
Inverted(M, out, r) == TLCEval([v \in Vs(M) |-> IF v \in out THEN Invert(M.pts[v], r) ELSE M.pts[v]])
\* (all vertices at least as far as every other one)
AreFurthest(M, S) == LET q == TLCEval([v \in Vs(M) |-> PNorm2(M.pts[v])]) m == RMinSeq(SeqOf({q[v] : v \in S})) IN \A v \in Vs(M) \ S : q[v] \preceq (m (.) (R(1) (+) E12))
\* vertices whose equation is A = 0 in a reported system
Grounded(A, n) == LET off == TLCEval({p \in DOMAIN A : p[1] # p[2] /\ ~(A[p] \doteq 0)}) busy == TLCEval({p[1] : p \in off} \cup {p[2] : p \in off}) IN {i \in 1 .. n : i \notin busy /\ Entry(A, i, i) \doteq 1}

(* ---- forces ---- *)
\* g: weight per vertex, 1 on a body and 0 on everything else; B: field per triangle
\* force and torque about c that the field exerts through the shell where g varies, per unit of depth, and their scales
ShellTri(M, g, B, t) == LET e == Grad2(M, t, g) a == RAbs(Twice(M, t)) s == IF Twice(M, t) \prec R(0) THEN R(-1) ELSE R(1) IN
  PMul(PSub(PMul(e, PNorm2(B[t]) (/) 2), PMul(B[t], PDot(B[t], e))), (s (/) 2))         \* times area, with the gradient e / (2 area)
Varies(M, g) == TLCEval({t \in Ts(M) : ~(g[M.tris[t][1]] \doteq g[M.tris[t][2]]) \/ ~(g[M.tris[t][2]] \doteq g[M.tris[t][3]])})
ShellForce(M, g, B) == LET T == SeqOf(Varies(M, g)) f == TLCEval([k \in 1 .. Len(T) |-> ShellTri(M, g, B, T[k])]) IN
  <<RSum([k \in 1 .. Len(T) |-> f[k][1]]) (/) MU0, RSum([k \in 1 .. Len(T) |-> f[k][2]]) (/) MU0, RSum([k \in 1 .. Len(T) |-> RSqrt(PNorm2(f[k]))]) (/) MU0>>
ShellTorque(M, g, B, c) == LET T == SeqOf(Varies(M, g)) f == TLCEval([k \in 1 .. Len(T) |-> ShellTri(M, g, B, T[k])]) IN
  <<RSum([k \in 1 .. Len(T) |-> PCross(PSub(Centroid(M, T[k]), c), f[k])]) (/) MU0,
    RSum([k \in 1 .. Len(T) |-> RSqrt(PNorm2(f[k]) (.) PDist2(Centroid(M, T[k]), c))]) (/) MU0>>
\* force on the currents of triangles S in the field B
LorentzForce(M, S, cur(_), B) == LET T == SeqOf(S) w == TLCEval([k \in 1 .. Len(T) |-> (cur(T[k]) (.) RAbs(Twice(M, T[k]))) (/) 2]) IN
  <<RSum([k \in 1 .. Len(T) |-> RNeg(w[k] (.) B[T[k]][2])]), RSum([k \in 1 .. Len(T) |-> w[k] (.) B[T[k]][1]]), RSum([k \in 1 .. Len(T) |-> RAbs(w[k]) (.) RSqrt(PNorm2(B[T[k]]))])>>
LorentzTorque(M, S, cur(_), B, c) == LET T == SeqOf(S) w == TLCEval([k \in 1 .. Len(T) |-> (cur(T[k]) (.) RAbs(Twice(M, T[k]))) (/) 2]) IN
  RSum([k \in 1 .. Len(T) |-> PCross(PSub(Centroid(M, T[k]), c), <<RNeg(w[k] (.) B[T[k]][2]), w[k] (.) B[T[k]][1]>>)])
\* distance in the maximum norm from p to the box lo, hi
BoxDist(p, lo, hi) == RMaxSeq(<<R(0), lo[1] (-) p[1], p[1] (-) hi[1], lo[2] (-) p[2], p[2] (-) hi[2]>>)
BoxOf(P) == <<<<RMinSeq([k \in 1 .. Len(P) |-> P[k][1]]), RMinSeq([k \in 1 .. Len(P) |-> P[k][2]])>>, <<RMaxSeq([k \in 1 .. Len(P) |-> P[k][1]]), RMaxSeq([k \in 1 .. Len(P) |-> P[k][2]])>>>>
\* 1 in the box, 0 further than w from it, and linear in between
Weights(M, box, w) == TLCEval([v \in Vs(M) |-> RMax(R(0), R(1) (-) (BoxDist(M.pts[v], box[1], box[2]) (/) w))])
=============================================================================
