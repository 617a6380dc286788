------------------------------ MODULE MC_Meshing ------------------------------
\* Exhaustive: all meshes reachable from two triangles of a square (with a segment across it) by splitting edges at their
\* midpoint, splitting triangles at an inner point and flipping edges.
EXTENDS Meshing
CONSTANT MAXT
VARIABLE m
Sq == <<<<R(0), R(0)>>, <<R(2), R(0)>>, <<R(2), R(2)>>, <<R(0), R(2)>>>>
\* the square with a drawn diagonal: two areas, labels 7 and 9
Ends == <<<<Sq[1], Sq[2]>>, <<Sq[2], Sq[3]>>, <<Sq[3], Sq[4]>>, <<Sq[4], Sq[1]>>, <<Sq[1], Sq[3]>>>>
Init == m = [pts |-> Sq, tris |-> <<<<1, 2, 3>>, <<1, 3, 4>>>>, attr |-> <<7, 9>>]
Third(t, e) == CHOOSE v \in {t[1], t[2], t[3]} : v \notin {e[1], e[2]}
TriOn(e) == {t \in Ts(m) : \E k \in 1 .. 3 : <<m.tris[t][k], m.tris[t][Nx3(k)]>> = e}
Drop(S) == LET keep == Ts(m) \ S IN [pts |-> m.pts, tris |-> KeepSeq(m.tris, keep), attr |-> KeepSeq(m.attr, keep)]
Put(M, t, l) == [M EXCEPT !.tris = Append(M.tris, t), !.attr = Append(M.attr, l)]
RECURSIVE Halve(_, _, _, _)
Halve(M, S, e, n) == IF S = {} THEN M ELSE LET t == CHOOSE t \in S : TRUE k == CHOOSE k \in 1 .. 3 : {m.tris[t][k], m.tris[t][Nx3(k)]} = {e[1], e[2]}
                         a == m.tris[t][k] b == m.tris[t][Nx3(k)] c == m.tris[t][Nx3(Nx3(k))] IN
                     Halve(Put(Put(M, <<a, n, c>>, m.attr[t]), <<n, b, c>>, m.attr[t]), S \ {t}, e, n)
Bisect == \E e \in Directed(m) :
  LET S == TriOn(e) \cup TriOn(<<e[2], e[1]>>) n == Len(m.pts) + 1 D == Drop(S) IN
  /\ Len(m.tris) + Cardinality(S) <= MAXT
  /\ m' = Halve([D EXCEPT !.pts = Append(D.pts, Mid(m.pts[e[1]], m.pts[e[2]]))], S, e, n)
Star3 == \E t \in Ts(m) :
  LET n == Len(m.pts) + 1 v == m.tris[t] D == Drop({t}) E == [D EXCEPT !.pts = Append(D.pts, Mid(m.pts[v[1]], Mid(m.pts[v[2]], m.pts[v[3]])))] IN
  /\ Len(m.tris) + 2 <= MAXT
  /\ m' = Put(Put(Put(E, <<v[1], v[2], n>>, m.attr[t]), <<v[2], v[3], n>>, m.attr[t]), <<v[3], v[1], n>>, m.attr[t])
Flip == \E e \in Directed(m) : \E t \in TriOn(e) : \E u \in TriOn(<<e[2], e[1]>>) :
  LET c == Third(m.tris[t], e) f == Third(m.tris[u], e) IN
  /\ m.attr[t] = m.attr[u]
  /\ Side(m.pts[c], m.pts[f], m.pts[e[1]]) * Side(m.pts[c], m.pts[f], m.pts[e[2]]) < 0
  /\ m' = Put(Put(Drop({t, u}), <<c, e[1], f>>, m.attr[t]), <<f, e[2], c>>, m.attr[t])
Next == Bisect \/ Star3 \/ Flip
Spec == Init /\ [][Next]_m
Tol == E9
a \approx b == Near(a, b, E12)       \* thirds are not decimals
Ch == Along(m, Ends, Tol)
IsConforming == Conforming(m)
FollowsDrawing == LET U == Undirected(Directed(m)) IN ChainsPresent(m, Ends, Ch, U, Tol) /\ NoJumps(Ch, U) /\ RimOnSegments(Directed(m), Ch) /\ PointsKept(m, Sq, Tol)
CoversAll == Covered(m, Sq) /\ Covered(m, <<Sq[1], Sq[2], Sq[3]>>)
OneLabelPerArea == LabelsUniform(m, Ch) /\ \A t \in Holders(m, <<R(1), RQ(1, 7)>>) : m.attr[t] = 7
z == [v \in Vs(m) |-> (R(3) (+) (2 (.) m.pts[v][1])) (-) (5 (.) m.pts[v][2])]
LinearExact == \A t \in Ts(m) : GradIs(m, t, z, <<R(2), R(-5)>>) /\ CurlIs(m, t, z, <<R(-5), R(-2)>>)
\* the second moment of the shape is that of the triangles' centroids plus the centroid error
Sections == LET P == <<Sq[1], Sq[2], Sq[3]>> S == Inside(m, P) c == <<R(-1), RQ(1, 3)>> IN
  /\ (SumOver(S, LAMBDA t : (Twice(m, t) (/) 2) (.) PDist2(Centroid(m, t), c)) (+) CentroidError(m, S)) \approx PPolar(P, c)
  /\ PNear(PMul(PBary(P), PArea(P)), <<SumOver(S, LAMBDA t : (Twice(m, t) (/) 2) (.) Centroid(m, t)[1]), SumOver(S, LAMBDA t : (Twice(m, t) (/) 2) (.) Centroid(m, t)[2])>>, E12)
LapIs == LET A == Laplacian(m, LAMBDA t : R(m.attr[t])) at(i, j) == LET k == IF i <= j THEN <<i, j>> ELSE <<j, i>> IN IF k \in DOMAIN A THEN A[k][1] ELSE R(0)
             row(i) == RSum([j \in Vs(m) |-> at(i, j)]) en == RSum([i \in Vs(m) |-> z[i] (.) RSum([j \in Vs(m) |-> at(i, j) (.) z[j]])]) IN
  /\ \A i \in Vs(m) : row(i) \approx 0 /\ R(0) \prec at(i, i)
  /\ en \approx (SumOver(Ts(m), LAMBDA t : (R(m.attr[t]) (.) Twice(m, t)) (.) 29) (/) 2)      \* |grad z|^2 = 29
=============================================================================
