------------------------------- MODULE Drawing -------------------------------
(***************************************************************************)
(* A drawing: the shapes drawn so far and the points, segments and markers *)
(* they consist of (C07, C08, C09, C12).                                   *)
(* lib/nikfemm/src/drawing/drawing.hpp                                     *)
(*                                                                         *)
(* d.pts    : sequence of points, pairwise more than EPS apart             *)
(* d.segs   : set of two-element sets of indices into pts                  *)
(* d.shapes : sequence of outlines                                         *)
(* d.marks  : sequence of <<position, material>>                           *)
(* d.fine   : set of indices of points added by refinement                 *)
(***************************************************************************)
EXTENDS Plane

VARIABLE d

EPS == E9                       \* points this close are one point
Margin == E6                    \* outlines this far apart are certainly apart
Empty == [pts |-> <<>>, segs |-> {}, shapes |-> <<>>, marks |-> <<>>, fine |-> {}]
Coincide(p, q) == PDist2(p, q) \prec (EPS (.) EPS)
Has(D, p) == \E k \in 1 .. Len(D.pts) : Coincide(D.pts[k], p)
At(D, p) == CHOOSE k \in 1 .. Len(D.pts) : Coincide(D.pts[k], p)
AddPoint(D, p) == IF Has(D, p) THEN D ELSE [D EXCEPT !.pts = Append(D.pts, p)]
RECURSIVE AddPoints(_, _, _)
AddPoints(D, P, k) == IF k > Len(P) THEN D ELSE AddPoints(AddPoint(D, P[k]), P, k + 1)
WithShape(D, P) ==
  LET E == TLCEval(AddPoints(D, P, 1))
      at == TLCEval([k \in 1 .. Len(P) |-> At(E, P[k])])
  IN TLCEval([E EXCEPT !.segs = D.segs \cup {{at[k], at[Nxt(k, Len(P))]} : k \in 1 .. Len(P)}, !.shapes = Append(D.shapes, P)])

(* ---- how a new side a b stands to a side already drawn ---- *)
Ends(D, s) == LET j == CHOOSE j \in s : TRUE k == CHOOSE k \in s : s = {j} \/ k # j IN <<D.pts[j], D.pts[k]>>
Short(x) == LET y == x (.) 65536 IN R(RFloor(y)) \doteq y /\ RAbs(x) \prec 65536
Exact(S) == \A k \in 1 .. Len(S) : Short(S[k][1]) /\ Short(S[k][2])
SharedEnds(a, b, c, e) == Cardinality({x \in {1, 2} : \E y \in {1, 2} : Coincide(<<a, b>>[x], <<c, e>>[y])})
\* one end shared and no other common point
Corner(a, b, c, e) ==
  LET x == IF Coincide(a, c) \/ Coincide(a, e) THEN a ELSE b
      u == IF x = a THEN PSub(b, a) ELSE PSub(a, b)
      v == IF Coincide(x, c) THEN PSub(e, c) ELSE PSub(c, e)
  IN ~(PCross(u, v) (.) PCross(u, v) \preceq (TenTo(-18) (.) (PNorm2(u) (.) PNorm2(v))) /\ R(0) \prec PDot(u, v))
PairFits(a, b, c, e) == LET n == SharedEnds(a, b, c, e) IN
  IF n = 2 THEN TRUE ELSE IF n = 1 THEN Corner(a, b, c, e)
  ELSE IF Exact(<<a, b, c, e>>) THEN ~Meet(a, b, c, e) ELSE (Margin (.) Margin) \prec SegSegDist2(a, b, c, e)
\* crossing well inside both sides
Deep(a, b, c, e) == LET m == E9 (.) RSqrt(PDist2(a, b) (.) PDist2(c, e)) IN
  /\ Side(a, b, c) * Side(a, b, e) < 0 /\ Side(c, e, a) * Side(c, e, b) < 0
  /\ \A z \in {Orient(a, b, c), Orient(a, b, e), Orient(c, e, a), Orient(c, e, b)} : m \prec RAbs(z)
PairClashes(a, b, c, e) == SharedEnds(a, b, c, e) = 0 /\ IF Exact(<<a, b, c, e>>) THEN Meet(a, b, c, e) ELSE Deep(a, b, c, e)
\* boxes apart: nothing to look at
FarBoxes(a, b, c, e) == \E x \in {1, 2} : \/ (RMax(a[x], b[x]) (+) Margin) \prec RMin(c[x], e[x])
                                          \/ (RMax(c[x], e[x]) (+) Margin) \prec RMin(a[x], b[x])
Pairs(D, P) == {<<k, s>> \in (1 .. Len(P)) \X D.segs : ~FarBoxes(P[k], P[Nxt(k, Len(P))], Ends(D, s)[1], Ends(D, s)[2])}
Fits(D, P) == \A ks \in Pairs(D, P) : PairFits(P[ks[1]], P[Nxt(ks[1], Len(P))], Ends(D, ks[2])[1], Ends(D, ks[2])[2])
Clashes(D, P) == \E ks \in Pairs(D, P) : PairClashes(P[ks[1]], P[Nxt(ks[1], Len(P))], Ends(D, ks[2])[1], Ends(D, ks[2])[2])

(* ---- the outline a drawing command stands for ---- *)
CircleCorners(c, r, n) == TLCEval([k \in 1 .. n |-> LET a == (2 (.) RPi) (.) RQ(k, n) IN
   IF k = n THEN <<c[1] (+) r, R(c[2])>> ELSE <<c[1] (+) (r (.) RCos(a)), c[2] (+) (r (.) RSin(a))>>])
Box(p, q) == <<p, <<q[1], p[2]>>, q, <<p[1], q[2]>>>>
OutlineOf(c) == CASE c.op = "rect" -> Box(c.p, c.q)
                  [] c.op = "rectwh" -> Box(c.p, PAdd(c.p, <<c.w, c.h>>))
                  [] c.op = "circle" -> CircleCorners(c.p, c.r, c.n)
                  [] c.op = "poly" -> c.pts

(* ---- transitions ---- *)
DInit == d = Empty
DrawShape(P) == Fits(d, P) /\ d' = WithShape(d, P)
DrawPoint(p) == d' = AddPoint(d, p)
DrawRegion(p, m) == d' = [d EXCEPT !.marks = Append(d.marks, <<p, m>>)]
Translate(v) == d' = TLCEval([d EXCEPT !.pts = Shift(d.pts, v), !.shapes = [k \in 1 .. Len(d.shapes) |-> Shift(d.shapes[k], v)],
                                       !.marks = [k \in 1 .. Len(d.marks) |-> <<PAdd(d.marks[k][1], v), d.marks[k][2]>>]])

(* ---- refinement: which points may be added (C12) ---- *)
\* smallest distance between a point and a segment it does not lie on (squared)
Clearance2(D) ==
  LET q == SeqOf(D.segs)
      to(k, n) == LET x == SegDist2(D.pts[k], Ends(D, q[n])[1], Ends(D, q[n])[2]) IN IF (EPS (.) EPS) \prec x THEN x ELSE TenTo(300)
  IN RMinSeq(TLCEval([k \in 1 .. Len(D.pts) |-> RMinSeq(TLCEval([n \in 1 .. Len(q) |-> IF k \in q[n] THEN TenTo(300) ELSE to(k, n)]))]))
Neighbours(D, k) == UNION {s \ {k} : s \in {s \in D.segs : k \in s}}
\* two sides at corner k enclose less than 120 degrees
Sharp(D, k) == \E a, b \in Neighbours(D, k) : a # b /\
  LET u == PSub(D.pts[a], D.pts[k]) v == PSub(D.pts[b], D.pts[k]) c == PDot(u, v) IN
  RNeg(RSqrt(PNorm2(u) (.) PNorm2(v)) (.) RQ(1, 2)) \preceq (c (+) (E9 (.) RSqrt(PNorm2(u) (.) PNorm2(v))))
InSomeShape(D, q) == \E k \in 1 .. Len(D.shapes) : Contains(D.shapes[k], q)
SafePoint(D, c2, q) == /\ InSomeShape(D, q)
                       /\ \A s \in D.segs : (c2 (.) TenTo(-8)) \prec SegDist2(q, Ends(D, s)[1], Ends(D, s)[2])
                       /\ \E k \in 1 .. Len(D.pts) : PDist2(q, D.pts[k]) \prec (c2 (.) RQ(1, 100)) /\ Sharp(D, k)
                       /\ \A k \in 1 .. Len(D.pts) : (c2 (.) TenTo(-8)) \prec PDist2(q, D.pts[k])
\* every sharp corner is refined wherever there is room (84 degrees or more, inside a shape) between two neighbouring sides
Way(D, k, q) == LET a == RAtan2(q[2] (-) D.pts[k][2], q[1] (-) D.pts[k][1]) IN IF a \prec 0 THEN a (+) (2 (.) RPi) ELSE a
Clearly(D, k) == \E a, b \in Neighbours(D, k) : a # b /\
  LET u == PSub(D.pts[a], D.pts[k]) v == PSub(D.pts[b], D.pts[k]) c == PDot(u, v) IN
  (RNeg(RSqrt(PNorm2(u) (.) PNorm2(v)) (.) RQ(1, 2)) (+) (E6 (.) RSqrt(PNorm2(u) (.) PNorm2(v)))) \prec c
Turned(x) == IF x \prec 0 THEN x (+) (2 (.) RPi) ELSE x
\* the sides at corner k, and the room from each to the next one counter-clockwise
CornerDone(D, k, c2, Q) ==
  \E w \in {TLCEval([a \in Neighbours(D, k) |-> Way(D, k, D.pts[a])])} :
  \E near \in {{j \in 1 .. Len(Q) : PDist2(Q[j], D.pts[k]) \prec (c2 (.) RQ(1, 100))}} :
  \A a \in DOMAIN w :
    LET room == RMinSeq(SeqOf({Turned(w[b] (-) w[a]) : b \in DOMAIN w \ {a}}))
        mid == w[a] (+) (room (/) 2) r == RSqrt(c2) (/) 50
        probe == <<D.pts[k][1] (+) (r (.) RCos(mid)), D.pts[k][2] (+) (r (.) RSin(mid))>> IN
    (RPi (.) RQ(84, 180)) \preceq room /\ InSomeShape(D, probe)
      => \E j \in near : Turned(Way(D, k, Q[j]) (-) w[a]) \prec room
Refined(D, c2, Q) == \A k \in 1 .. Len(D.pts) : Clearly(D, k) => CornerDone(D, k, c2, Q)
\* refinement around magnets: points next to the sides of a shape that holds the marker of a magnet
IsMagnet(m) == ~(m.M[1] \doteq 0 /\ m.M[2] \doteq 0)
Holds(D, k, j) == Contains(D.shapes[k], D.marks[j][1])
MagnetShapes(D) == {k \in 1 .. Len(D.shapes) : \E j \in 1 .. Len(D.marks) : IsMagnet(D.marks[j][2]) /\ Holds(D, k, j)}
SideDist2(P, e, q) == SegDist2(q, P[e], P[Nxt(e, Len(P))])
BesideMagnet(D, S, c2, q) == /\ \E k \in S : Contains(D.shapes[k], q) /\ \E e \in 1 .. Len(D.shapes[k]) : SideDist2(D.shapes[k], e, q) \preceq (c2 (.) RQ(1, 25))
                             /\ \A k \in 1 .. Len(D.pts) : (c2 (.) RQ(1, 400)) \prec PDist2(q, D.pts[k])
                             /\ \A s \in D.segs : (c2 (.) RQ(1, 400)) \prec SegDist2(q, Ends(D, s)[1], Ends(D, s)[2])
\* the shapes that are magnets: they hold the marker of one, and no other shape
PlainMagnets(D) == {k \in MagnetShapes(D) : \A j \in 1 .. Len(D.shapes) : j = k \/ ~ContainsPolygon(D.shapes[k], D.shapes[j])}
Lined(D, k, c2, Q) == \A e \in 1 .. Len(D.shapes[k]) : (c2 (.) 9) \prec PDist2(D.shapes[k][e], D.shapes[k][Nxt(e, Len(D.shapes[k]))]) => \E j \in 1 .. Len(Q) : SideDist2(D.shapes[k], e, Q[j]) \preceq (c2 (.) RQ(1, 25))
\* Q : a sequence of added points
Refine(Q) == d' = [d EXCEPT !.pts = d.pts \o Q, !.fine = d.fine \cup {Len(d.pts) + k : k \in 1 .. Len(Q)}]

(* ---- materials of shapes (C09) ---- *)
SameOutline(P, Q) == Len(P) = Len(Q) /\ \A k \in 1 .. Len(P) : Coincide(P[k], Q[k])
Nested(D, P) == {k \in 1 .. Len(D.shapes) : ContainsPolygon(P, D.shapes[k]) /\ ~ContainsPolygon(D.shapes[k], P)}
OwnMarks(D, P) == {k \in 1 .. Len(D.marks) : Contains(P, D.marks[k][1]) /\ \A q \in Nested(D, P) : ~Contains(D.shapes[q], D.marks[k][1])}

(* ---- what C07 and C08 claim of every reachable drawing ---- *)
OnePointPerPlace == \A j, k \in 1 .. Len(d.pts) : j # k => ~Coincide(d.pts[j], d.pts[k])
SidesPresent == \A n \in 1 .. Len(d.shapes) : \A k \in 1 .. Len(d.shapes[n]) :
                  LET P == d.shapes[n] IN \E s \in d.segs : \E a, b \in s : Coincide(d.pts[a], P[k]) /\ Coincide(d.pts[b], P[Nxt(k, Len(P))])
NothingElse == /\ \A s \in d.segs : \E n \in 1 .. Len(d.shapes) : \E k \in 1 .. Len(d.shapes[n]) :
                    LET P == d.shapes[n] IN \E a, b \in s : Coincide(d.pts[a], P[k]) /\ Coincide(d.pts[b], P[Nxt(k, Len(P))])
               /\ UNION d.segs \subseteq 1 .. Len(d.pts)
\* segments meet only at common end points: the drawing is a planar straight-line graph
Planar == \A s, t \in d.segs : s # t => LET a == Ends(d, s) b == Ends(d, t) IN
            IF s \cap t = {} THEN ~Meet(a[1], a[2], b[1], b[2]) ELSE Corner(a[1], a[2], b[1], b[2])
=============================================================================
