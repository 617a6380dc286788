-------------------------------- MODULE Plane --------------------------------
(***************************************************************************)
(* Exact plane geometry over the reals of ExactReal (C10, C11), and the    *)
(* vocabulary in which drawings, meshes and fields are specified.          *)
(* lib/nikfemm/src/geometry                                                *)
(*                                                                         *)
(* A point is <<x, y>>, a segment <<p, q>>, a polygon a sequence of        *)
(* corners.  Length comparisons are made on squared lengths.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, ExactReal

PAdd(p, q) == <<p[1] (+) q[1], p[2] (+) q[2]>>
PSub(p, q) == <<p[1] (-) q[1], p[2] (-) q[2]>>
PMul(p, t) == <<p[1] (.) t, p[2] (.) t>>
PDot(p, q) == (p[1] (.) q[1]) (+) (p[2] (.) q[2])
PCross(p, q) == (p[1] (.) q[2]) (-) (p[2] (.) q[1])
PEq(p, q) == p[1] \doteq q[1] /\ p[2] \doteq q[2]
PNorm2(p) == PDot(p, p)
PDist2(p, q) == PNorm2(PSub(p, q))
PDist(p, q) == RSqrt(PDist2(p, q))
PNear(p, q, tol) == RFin(p[1]) /\ RFin(p[2]) /\ PDist2(p, q) \preceq (tol (.) tol)
Mid(p, q) == PMul(PAdd(p, q), RQ(1, 2))
\* twice the signed area of the triangle p q r, positive when counter-clockwise
Orient(p, q, r) == PCross(PSub(q, p), PSub(r, p))
Side(p, q, r) == RSgn(Orient(p, q, r))
PMaxAbs(p) == RMax(RAbs(p[1]), RAbs(p[2]))

\* the elements of s at the positions in S, in order
RECURSIVE KeepFrom(_, _, _)
KeepFrom(s, S, k) == IF k > Len(s) THEN <<>> ELSE (IF k \in S THEN <<s[k]>> ELSE <<>>) \o KeepFrom(s, S, k + 1)
KeepSeq(s, S) == KeepFrom(s, S, 1)

(* ---- segments ---- *)
Between(x, a, b) == RMin(a, b) \preceq x /\ x \preceq RMax(a, b)
InBox(p, a, b) == Between(p[1], a[1], b[1]) /\ Between(p[2], a[2], b[2])
OnSegment(p, a, b) == Side(a, b, p) = 0 /\ InBox(p, a, b)
\* the closed segments a b and c d have a point in common
Meet(a, b, c, d) == \/ Side(a, b, c) * Side(a, b, d) < 0 /\ Side(c, d, a) * Side(c, d, b) < 0
                    \/ OnSegment(c, a, b) \/ OnSegment(d, a, b) \/ OnSegment(a, c, d) \/ OnSegment(b, c, d)
\* squared distance from p to the closed segment a b
SegDist2(p, a, b) == LET d == PSub(b, a) l == PNorm2(d) t == PDot(PSub(p, a), d) IN
                     IF l \doteq 0 \/ t \preceq 0 THEN PDist2(p, a) ELSE IF l \preceq t THEN PDist2(p, b)
                     ELSE LET c == PCross(d, PSub(p, a)) IN (c (.) c) (/) l
SegSegDist2(a, b, c, d) == IF Meet(a, b, c, d) THEN R(0) ELSE RMinSeq(<<SegDist2(a, c, d), SegDist2(b, c, d), SegDist2(c, a, b), SegDist2(d, a, b)>>)

(* ---- polygons ---- *)
Nxt(k, n) == IF k = n THEN 1 ELSE k + 1
Edges(P) == [k \in 1 .. Len(P) |-> <<P[k], P[Nxt(k, Len(P))]>>]
OnOutline(P, q) == \E k \in 1 .. Len(P) : OnSegment(q, P[k], P[Nxt(k, Len(P))])
\* the edge from a to b crosses the upward-closed horizontal ray to the right of q
CrossesRay(a, b, q) == (a[2] \preceq q[2]) # (b[2] \preceq q[2]) /\ (IF a[2] \prec b[2] THEN Side(a, b, q) > 0 ELSE Side(a, b, q) < 0)
Interior(P, q) == Cardinality({k \in 1 .. Len(P) : CrossesRay(P[k], P[Nxt(k, Len(P))], q)}) % 2 = 1
Contains(P, q) == OnOutline(P, q) \/ Interior(P, q)
\* winding number of the outline around q, for q off the outline: the definition Interior is checked against
Winding(P, q) == LET up(k) == P[k][2] \preceq q[2] /\ q[2] \prec P[Nxt(k, Len(P))][2] /\ Side(P[k], P[Nxt(k, Len(P))], q) > 0
                     dn(k) == P[Nxt(k, Len(P))][2] \preceq q[2] /\ q[2] \prec P[k][2] /\ Side(P[k], P[Nxt(k, Len(P))], q) < 0
                 IN Cardinality({k \in 1 .. Len(P) : up(k)}) - Cardinality({k \in 1 .. Len(P) : dn(k)})
OutlineDist2(P, q) == RMinSeq([k \in 1 .. Len(P) |-> SegDist2(q, P[k], P[Nxt(k, Len(P))])])
\* corners pairwise distinct, sides meet only at their common corner
Simple(P) == /\ Len(P) >= 3
             /\ \A j, k \in 1 .. Len(P) : j < k => ~PEq(P[j], P[k])
             /\ \A j, k \in 1 .. Len(P) : j < k =>
                  LET a == P[j] b == P[Nxt(j, Len(P))] c == P[k] d == P[Nxt(k, Len(P))] IN
                  IF Nxt(j, Len(P)) = k THEN ~OnSegment(d, a, b) /\ ~OnSegment(a, c, d)
                  ELSE IF Nxt(k, Len(P)) = j THEN ~OnSegment(c, a, b) /\ ~OnSegment(b, c, d)
                  ELSE ~Meet(a, b, c, d)
Area2(P) == RSum([k \in 1 .. Len(P) |-> PCross(P[k], P[Nxt(k, Len(P))])])       \* twice the signed area
PArea(P) == RAbs(Area2(P)) (/) 2
\* The part of q's outline inside P, decided at the finitely many points where it can change: the places where a side of
\* Q meets an outline corner or side of P split that side, and each piece is in or out as its midpoint is.
CutAt(a, b, c, d) == \* parameters on a b where it meets c d
  LET u == PSub(b, a) v == PSub(d, c) den == PCross(u, v) IN
  IF ~(den \doteq 0) THEN IF Meet(a, b, c, d) THEN {PCross(PSub(c, a), v) (/) den} ELSE {}
  ELSE {PDot(PSub(e, a), u) (/) PNorm2(u) : e \in {e \in {c, d} : OnSegment(e, a, b)}}
RECURSIVE RSortSet(_)
RSortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x \preceq y IN <<m>> \o RSortSet({y \in S : ~(y \doteq m)})
SideInside(P, a, b) ==
  LET T == RSortSet({R(0), R(1)} \cup UNION {CutAt(a, b, P[k], P[Nxt(k, Len(P))]) : k \in 1 .. Len(P)}) IN
  \A k \in 1 .. Len(T) - 1 : LET t == (T[k] (+) T[k + 1]) (/) 2 IN Contains(P, PAdd(a, PMul(PSub(b, a), t)))
ContainsPolygon(P, Q) == \A k \in 1 .. Len(Q) : Contains(P, Q[k]) /\ SideInside(P, Q[k], Q[Nxt(k, Len(Q))])
\* some point inside the polygon: a fan triangle's or ear's centroid that lies inside
Shift(P, v) == [k \in 1 .. Len(P) |-> PAdd(P[k], v)]
Turn(p, c, s) == <<(c (.) p[1]) (-) (s (.) p[2]), (s (.) p[1]) (+) (c (.) p[2])>>

(* ---- circles ---- *)
PSum(S) == <<RSum([k \in 1 .. Len(S) |-> S[k][1]]), RSum([k \in 1 .. Len(S) |-> S[k][2]])>>
Mean(S) == PMul(PSum(S), R(1) (/) Len(S))
Far2(S, c) == RMaxSeq([k \in 1 .. Len(S) |-> PDist2(S[k], c)])
Circum(p, q, r) == LET b == PSub(q, p) c == PSub(r, p) B == PNorm2(b) C == PNorm2(c) D == 2 (.) PCross(b, c) IN
                   PAdd(p, <<((c[2] (.) B) (-) (b[2] (.) C)) (/) D, ((b[1] (.) C) (-) (c[1] (.) B)) (/) D>>)
\* squared radius of the smallest circle that contains every point of S: attained by a circle on two or three of them
Candidates(S) == {Mid(S[j], S[k]) : j, k \in 1 .. Len(S)}
                 \cup {Circum(S[t[1]], S[t[2]], S[t[3]]) : t \in {t \in (1 .. Len(S)) \X (1 .. Len(S)) \X (1 .. Len(S)) : t[1] < t[2] /\ t[2] < t[3] /\ Side(S[t[1]], S[t[2]], S[t[3]]) # 0}}
MinRadius2(S) == RMin(Far2(S, S[1]), LET C == {Far2(S, c) : c \in Candidates(S)} IN CHOOSE x \in C : \A y \in C : x \preceq y)
=============================================================================
