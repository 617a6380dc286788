------------------------------- MODULE MC_Plane -------------------------------
(***************************************************************************)
(* Exhaustive on a grid: the plane vocabulary agrees with independent      *)
(* definitions and has the symmetries geometry has.                        *)
(***************************************************************************)
EXTENDS Plane
CONSTANTS N, K      \* grid 0..N, polygons of K corners
VARIABLE P
Pts == {<<R(a), R(b)>> : a \in 0 .. N, b \in 0 .. N}
Half == {<<RQ(a, 2), RQ(b, 2)>> : a \in -1 .. 2 * N + 1, b \in -1 .. 2 * N + 1}
Init == P = <<>>
\* polygons are built corner by corner
Next == Len(P) < K /\ \E p \in Pts : P' = Append(P, p)
Spec == Init /\ [][Next]_P
Rev(Q) == [k \in 1 .. Len(Q) |-> Q[Len(Q) + 1 - k]]
Rot(Q) == [k \in 1 .. Len(Q) |-> Q[Nxt(k, Len(Q))]]
Whole == Len(P) >= 3 /\ Simple(P)
MidIn(q, a, b) == \E t \in 0 .. 12 : PEq(q, PAdd(a, PMul(PSub(b, a), RQ(t, 12))))
CrossingIsWinding == Whole => \A q \in Half : OnOutline(P, q) \/ (Interior(P, q) = (Winding(P, q) # 0))
OrientationFree == Whole => \A q \in Half : Contains(P, q) = Contains(Rev(P), q) /\ Contains(P, q) = Contains(Rot(P), q)
WindingIsOrientation == Whole => \A q \in Half : OnOutline(P, q) \/ Winding(P, q) \in {0, RSgn(Area2(P))}
OutlineIsDistanceZero == Whole => \A q \in Half : OnOutline(P, q) = (OutlineDist2(P, q) \doteq 0)
Symmetric == Len(P) = 4 => LET m == Meet(P[1], P[2], P[3], P[4]) IN m = Meet(P[3], P[4], P[1], P[2]) /\ m = Meet(P[2], P[1], P[3], P[4]) /\ m = Meet(P[1], P[2], P[4], P[3])
MeetIsCommonPoint == Len(P) = 4 /\ ~PEq(P[1], P[2]) /\ ~PEq(P[3], P[4]) =>
  \* sides of slope with denominators up to 2N meet, if they do, at a point the parametrisation by CutAt finds
  (Meet(P[1], P[2], P[3], P[4]) <=> \/ \E t \in CutAt(P[1], P[2], P[3], P[4]) : OnSegment(PAdd(P[1], PMul(PSub(P[2], P[1]), t)), P[1], P[2])
                                    \/ OnSegment(P[1], P[3], P[4]) \/ OnSegment(P[2], P[3], P[4]))
SelfContained == Whole => ContainsPolygon(P, P) /\ ContainsPolygon(P, Rev(P))
AreaOfTriangles == Len(P) = 3 => PArea(P) \doteq (RAbs(Orient(P[1], P[2], P[3])) (/) 2)
SmallestCircle == Len(P) \in 1 .. K => /\ MinRadius2(P) \preceq Far2(P, Mean(P))
                                        /\ \A k \in 1 .. Len(P) : MinRadius2(P) \preceq Far2(P, P[k])
                                        /\ MinRadius2(P) \doteq MinRadius2(Shift(P, <<RQ(7, 2), R(-3)>>))
=============================================================================
