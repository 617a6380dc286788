--------------------------- MODULE Trace_Geometry ---------------------------
\* Recorded answers of the geometric predicates against exact plane geometry.
EXTENDS Plane, Replay
vars == rvars
Init == ReplayInit
\* Numbers with few binary digits: double arithmetic on them is exact, so even borderline cases are decided exactly.
Short(x) == LET y == x (.) 65536 IN R(RFloor(y)) \doteq y /\ RAbs(x) \prec 65536
ShortP(p) == Short(p[1]) /\ Short(p[2])
ShortAll(P) == \A k \in 1 .. Len(P) : ShortP(P[k])
Size(P) == RMaxSeq([k \in 1 .. Len(P) |-> PMaxAbs(P[k])])
\* q is not so close to the outline that rounding may decide
ClearOf(P, q) == IF ShortAll(P) /\ ShortP(q) THEN TRUE ELSE LET m == E12 (.) RMax(Size(P), PMaxAbs(q)) IN (m (.) m) \prec OutlineDist2(P, q)

TContains == /\ IsReturn("contains")
             /\ Chk("C10", "point in polygon", \A k \in 1 .. Len(Ev.c.q) : ClearOf(Ev.c.poly, Ev.c.q[k]) => Ev.r.v[k] = Contains(Ev.c.poly, Ev.c.q[k]))
TContainsB ==
  /\ IsReturn("containsb")
  /\ \A k \in 1 .. Len(Ev.c.q) :
       LET P == Ev.c.poly q == Ev.c.q[k] d == RSqrt(OutlineDist2(P, q)) near == d \preceq Ev.c.eps in == Contains(P, q)
           m == E12 (.) RMax(Size(P), PMaxAbs(q)) clear == ~Near(d, Ev.c.eps, m) IN
       Chk("C10", "point in polygon with boundary width", (clear /\ (near \/ ClearOf(P, q))) => Ev.r.in[k] = (in \/ near) /\ Ev.r.out[k] = (in /\ ~near))
\* every corner of Q and every cut of its sides clear of rounding
TPolyIn == /\ IsReturn("polyin")
           /\ LET P == Ev.c.poly Q == Ev.c.q IN
              Chk("C10", "polygon in polygon", (ShortAll(P) /\ ShortAll(Q)) => Ev.r.v = ContainsPolygon(P, Q))
TPolyEq == /\ IsReturn("polyeq")
           /\ LET P == Ev.c.poly Q == Ev.c.q same == Len(P) = Len(Q) /\ \A k \in 1 .. Len(P) : PNear(P[k], Q[k], TenTo(-9)) IN
              Chk("C10", "equality of polygons", Ev.r.eq = same /\ Ev.r.ne = ~same)
TPolyXf ==
  /\ IsReturn("polyxf")
  /\ LET P == Ev.c.poly v == Ev.c.v c == RCos(Ev.c.t) s == RSin(Ev.c.t) m == E12 (.) (Size(P) (+) PMaxAbs(v)) IN
     /\ Chk("C10", "translated polygon", Len(Ev.r.tr) = Len(P) /\ \A k \in 1 .. Len(P) : PNear(Ev.r.tr[k], PAdd(P[k], v), m))
     /\ Chk("C10", "rotated polygon", Len(Ev.r.rot) = Len(P) /\ \A k \in 1 .. Len(P) : PNear(Ev.r.rot[k], PAdd(v, Turn(PSub(P[k], v), c, s)), m))
     /\ Chk("C10", "original kept", Len(Ev.r.orig) = Len(P) /\ \A k \in 1 .. Len(P) : PEq(Ev.r.orig[k], P[k]))
TIsect == /\ IsReturn("isect")
          /\ \A k \in 1 .. Len(Ev.c.q) : LET q == Ev.c.q[k] IN
               Chk("C10", "segments meet", (ShortP(q[1]) /\ ShortP(q[2]) /\ ShortP(q[3]) /\ ShortP(q[4])) => Ev.r.v[k] = Meet(q[1], q[2], q[3], q[4]))
TDist == /\ IsReturn("dist")
         /\ \A k \in 1 .. Len(Ev.c.q) :
              LET q == Ev.c.q[k] d == RSqrt(SegDist2(q[1], q[2], q[3])) m == E12 (.) RMaxSeq(<<PMaxAbs(q[1]), PMaxAbs(q[2]), PMaxAbs(q[3])>>) IN
              Chk("C10", "distance to a segment", Near(Ev.r.v[2 * k - 1], d, m) /\ Near(Ev.r.v[2 * k], d, m))
TVecs ==
  /\ IsReturn("vecs")
  /\ LET a == Ev.c.a b == Ev.c.b p == Ev.c.p t == Ev.c.t r == Ev.r
         z == RMaxSeq(<<PMaxAbs(a), PMaxAbs(b), PMaxAbs(p)>>) m1 == E12 (.) z m2 == E12 (.) (z (.) z) mt == m1 (.) (RAbs(t) (+) 1)
         c == RCos(t) s == RSin(t)
         u == PSub(a, b) w == PSub(p, b) ang == RAtan2(PCross(u, w), PDot(u, w)) IN
     /\ Chk("C10", "vector sums and products", PNear(r.add, PAdd(a, b), m1) /\ PNear(r.sub, PSub(a, b), m1) /\ PNear(r.mul, PMul(a, t), mt) /\ PNear(r.neg, PMul(a, -1), R(0))
                                               /\ Near(r.dot, PDot(a, b), m2) /\ Near(r.cross, PCross(a, b), m2) /\ PNear(r.tr, PAdd(a, b), m1))
     /\ Chk("C10", "lengths and distances", Near(r.norm, RSqrt(PNorm2(a)), m1) /\ Near(r.norm2, PNorm2(a), m2) /\ Near(r.dist, PDist(a, b), m1) /\ Near(r.dist2, PDist2(a, b), m2) /\ Near(r.len, PDist(a, b), m1))
     /\ Chk("C10", "normal and unit vector", PNear(r.normal, <<RNeg(a[2]), a[1]>>, R(0)) /\ (IF PNorm2(a) \doteq 0 THEN PNear(r.unit, a, R(0)) ELSE PNear(r.unit, PMul(a, R(1) (/) RSqrt(PNorm2(a))), E12)))
     /\ Chk("C10", "rotation", PNear(r.rot, Turn(a, c, s), m1) /\ PNear(r.rotc, PAdd(b, Turn(u, c, s)), m1))
     /\ Chk("C10", "signed and absolute area", Near(r.area2, Orient(a, b, p), m2) /\ Near(r.oarea, Orient(a, b, p) (/) 2, m2) /\ Near(r.area, RAbs(Orient(a, b, p)) (/) 2, m2))
     /\ Chk("C10", "points between", PNear(r.lerp, PAdd(a, PMul(PSub(b, a), t)), mt) /\ PNear(r.mid, Mid(a, b), m1))
     /\ Chk("C10", "angle", (PMaxAbs(u) \preceq m1 \/ PMaxAbs(w) \preceq m1) \/ (Near(r.ang, ang, E9) /\ Near(r.aang, RAbs(ang), E9)) \/ Near(RAbs(ang), RPi, E9))
     /\ Chk("C10", "equality of points", LET d == PDist2(a, b) e == PNear(a, b, E9) IN Near(d, TenTo(-18), TenTo(-24)) \/ (r.eq = e /\ r.ne = ~e))

TCirc ==
  /\ IsReturn("circ")
  /\ LET S == Ev.c.pts m == E12 (.) (Size(S) (+) E12) rr == (Ev.r.r (+) m) (.) (Ev.r.r (+) m) IN
     /\ Chk("C11", "centre is the mean", PNear(Ev.r.c, Mean(S), m))
     /\ Chk("C11", "encloses every point", RFin(Ev.r.r) /\ \A k \in 1 .. Len(S) : PDist2(S[k], Ev.r.c) \preceq rr)
     /\ Chk("C11", "radius reaches the farthest point", RFin(Ev.r.r) /\ Near(Ev.r.r, RSqrt(Far2(S, Mean(S))), m (.) 4))
TMinCirc ==
  /\ IsReturn("mincirc")
  /\ LET S == Ev.c.pts m == E9 (.) (Size(S) (+) E12) rr == (Ev.r.r (+) m) (.) (Ev.r.r (+) m) IN
     /\ Chk("C11", "minimum circle encloses every point", RFin(Ev.r.r) /\ RFin(Ev.r.c[1]) /\ RFin(Ev.r.c[2]) /\ \A k \in 1 .. Len(S) : PDist2(S[k], Ev.r.c) \preceq rr)
     /\ Chk("C11", "no smaller circle encloses every point", RFin(Ev.r.r) /\ Near(Ev.r.r, RSqrt(MinRadius2(S)), m))
\* circles through two points (opposite ones) and three
TThru == /\ IsReturn("thru")
         /\ LET S == Ev.c.pts r == Ev.r.r c == Ev.r.c n == Len(S) o == IF n = 3 THEN RAbs(Orient(S[1], S[2], S[3])) ELSE R(0)
                z == Size(S) (+) TenTo(-12) fat == IF n = 2 THEN TRUE ELSE (E6 (.) (z (.) z)) \prec o
                m == E9 (.) (z (+) RAbs(r)) IN
            Chk("C11", "circle through the points", fat => RFin(r) /\ (\A k \in 1 .. n : Near(PDist(S[k], c), r, m)) /\ (n = 2 => PNear(c, Mid(S[1], S[2]), m)))
TDisc == /\ IsReturn("disc")
         /\ LET S == Ev.c.q r == R(Ev.c.r) in(k) == PDist2(S[k], Ev.c.c) \preceq (r (.) r)
                m == E12 (.) (Size(S) (+) r) clear(k) == PEq(S[k], Ev.c.c) \/ ~Near(PDist(S[k], Ev.c.c), r, m) same == PEq(Ev.c.c, Ev.c.c2) /\ r \doteq Ev.c.r2 IN
            /\ Chk("C11", "point in circle", \A k \in 1 .. Len(S) : clear(k) => Ev.r.in[k] = in(k))
            /\ Chk("C11", "points in circle", Ev.r.all = \A k \in 1 .. Len(S) : Ev.r.in[k])
            /\ Chk("C11", "equality and length of circles", (PEq(Ev.c.c, Ev.c.c2) \/ R(2) (.) E9 \prec PDist(Ev.c.c, Ev.c.c2)) => Ev.r.eq = same /\ Ev.r.ne = ~same)
            /\ Chk("C11", "equality and length of circles", NearRel(Ev.r.len, (2 (.) RPi) (.) r, r, E12))
Within(x, a, b) == RMin(a, b) \preceq x /\ x \preceq RMax(a, b)
TSegs == /\ IsReturn("segs")
         /\ \A k \in 1 .. Len(Ev.c.q) :
              LET q == Ev.c.q[k] box == Within(q[1][1], q[2][1], q[3][1]) /\ Within(q[1][2], q[2][2], q[3][2]) same == (PEq(q[2], q[4]) /\ PEq(q[3], q[5])) \/ (PEq(q[2], q[5]) /\ PEq(q[3], q[4])) IN
              /\ Chk("C10", "point in the box of a segment", Ev.r.box[k] = box /\ Ev.r.box2[k] = box)
              /\ Chk("C10", "equality of segments", Ev.r.eq[k] = same /\ Ev.r.ne[k] = ~same)
Next == TThru \/ TDisc \/ TSegs \/ TContains \/ TContainsB \/ TPolyIn \/ TPolyEq \/ TPolyXf \/ TIsect \/ TDist \/ TVecs \/ TCirc \/ TMinCirc \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
