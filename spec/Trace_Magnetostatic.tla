------------------------- MODULE Trace_Magnetostatic -------------------------
\* Recorded magnetostatic sessions against Magnetostatic.
EXTENDS Drawing, Magnetostatic, Replay
VARIABLES kind,
          thick,   \* depth
          mesh,    \* the mesh, in its own coordinates
          at,      \* <<position of its origin in the drawing, radius of the circle>>
          mats,    \* materials by label
          net,     \* the equations, exactly
          field,   \* field per triangle
          asked,   \* answers of the force queries so far
          since,   \* <<number of fields set by hand, factor applied to the field>>
          past     \* the previous problem and its answers
vars == <<d, rvars, kind, thick, mesh, at, mats, net, field, asked, since, past>>
NoNet == [n |-> 0, A |-> <<>>, A0 |-> <<>>, b |-> <<>>, fixed |-> <<>>]
NoMesh == [pts |-> <<>>, tris |-> <<>>, attr |-> <<>>]
Init == /\ DInit /\ ReplayInit /\ kind = "" /\ thick = R(1) /\ mesh = NoMesh /\ at = <<<<R(0), R(0)>>, R(0)>> /\ mats = <<>> /\ net = NoNet /\ field = <<>> /\ asked = {} /\ since = <<0, R(1)>> /\ past = <<>>
On(ps) == Focus \cap ps # {}
MeshIn(r) == TLCEval([pts |-> r.pts, tris |-> [k \in 1 .. Len(r.tris) |-> <<r.tris[k][1] + 1, r.tris[k][2] + 1, r.tris[k][3] + 1>>], attr |-> r.attr])
SysA(s) == RCells(s.A)
Slender(M) == RMaxSeq([t \in Ts(M) |-> LET p == Corner3(M, t) IN RMaxSeq(<<PDist2(p[1], p[2]), PDist2(p[2], p[3]), PDist2(p[3], p[1])>>) (/) RAbs(Twice(M, t))])
MatT(M, mm, t) == mm[M.attr[t] + 1]
Null(v) == v[1] \doteq 0 /\ v[2] \doteq 0
\* equal numbers for equal magnetisations
MagIds(mm) == TLCEval([k \in 1 .. Len(mm) |-> IF Null(mm[k].M) THEN 0 ELSE CHOOSE j \in 1 .. k : PEq(mm[j].M, mm[k].M) /\ \A i \in 1 .. j - 1 : ~PEq(mm[i].M, mm[k].M)])
LoadOf(M, mm) == LET id == MagIds(mm) IN Load(M, LAMBDA t : MatT(M, mm, t).J, LAMBDA t : MatT(M, mm, t).M, LAMBDA t : id[M.attr[t] + 1])
Magnetised(M, mm) == \E t \in Ts(M) : ~Null(MatT(M, mm, t).M)
\* permeability of a material without a curve, or with one that stands for a constant
ConstMu(m) == IF Len(m.bh) = 0 THEN R(m.mu) ELSE (m.bh[Len(m.bh)][1] (-) m.bh[1][1]) (/) (m.bh[Len(m.bh)][2] (-) m.bh[1][2])

TNew == /\ IsReturn("new") /\ d' = Empty /\ kind' = Ev.c.kind /\ thick' = (IF "depth" \in DOMAIN Ev.c THEN R(Ev.c.depth) ELSE R(1))
        /\ mesh' = NoMesh /\ at' = <<<<R(0), R(0)>>, R(0)>> /\ mats' = <<>> /\ net' = NoNet /\ field' = <<>> /\ asked' = {} /\ since' = <<0, R(1)>> /\ past' = (IF On({"C26"}) THEN <<d, asked>> ELSE past)
Rest == UNCHANGED <<kind, thick, mesh, at, mats, net, field, asked, since, past>>
TShape == (\E op \in {"rect", "rectwh", "circle", "poly"} : IsReturn(op)) /\ d' = WithShape(d, OutlineOf(Ev.c)) /\ Rest
TPoint == IsReturn("point") /\ DrawPoint(Ev.c.p) /\ Rest
TRegion == IsReturn("region") /\ DrawRegion(Ev.c.p, Ev.c.prop) /\ Rest
(* ---- C22, C23: the assembled equations ---- *)
\* matrix with the equations of the vertices S replaced by A = 0
EntriesAre(A, F, S, f) ==
  /\ \A p \in DOMAIN F : IF p[1] \in S \/ p[2] \in S THEN Entry(A, p[1], p[2]) \doteq (IF p[1] = p[2] THEN R(1) ELSE R(0)) ELSE Near(Entry(A, p[1], p[2]), F[p][1], (E12 (.) f) (.) F[p][2])
  /\ \A p \in DOMAIN A : p[1] <= p[2] /\ (p \in DOMAIN F \/ A[p] \doteq 0)
LoadIs(b, L, S, f) == \A i \in 1 .. Len(b) : IF i \in S THEN b[i] \doteq 0 ELSE IF <<i, i>> \in DOMAIN L THEN Near(b[i], L[<<i, i>>][1], (E12 (.) f) (.) L[<<i, i>>][2]) ELSE b[i] \doteq 0
\* (values bound by \E over a singleton are evaluated once)
Assembled(M, mm, r, S) ==
  \E f \in {Slender(M)} : \E A1 \in {SysA(r.s1)} : \E A2 \in {SysA(r.s2)} :
  \E F1 \in {IF On({"C22"}) THEN Reluctance(M, LAMBDA t : R(1)) ELSE <<>>} : \E F2 \in {IF On({"C22"}) THEN Reluctance(M, LAMBDA t : r.mu2[t]) ELSE <<>>} : \E L \in {LoadOf(M, mm)} :
  /\ Chk("C22", "one equation per vertex", r.s1.m = Len(M.pts) /\ Len(r.s1.b) = Len(M.pts) /\ r.s2.m = Len(M.pts) /\ Len(r.s2.b) = Len(M.pts))
  /\ Chk("C22", "entries of the matrix, equal permeabilities", EntriesAre(A1, F1, S, f))
  /\ Chk("C22", "entries of the matrix, different permeabilities", EntriesAre(A2, F2, S, f))
  /\ Chk("C22", "currents on the right-hand side", Magnetised(M, mm) \/ (LoadIs(r.s1.b, L, S, f) /\ LoadIs(r.s2.b, L, S, f)))
  /\ Chk("C23", "surface currents of the magnets on the right-hand side", LoadIs(r.s1.b, L, S, f) /\ LoadIs(r.s2.b, L, S, f))
\* (a triangle of the exterior may cover the inside of the circle)
MarkersMagnetised(M, mm, c, out) == \A k \in 1 .. Len(d.marks) : LET h == Holders(M, PSub(d.marks[k][1], c)) \ Outer(M, out) IN h # {} /\ \A t \in h : PEq(MatT(M, mm, t).M, d.marks[k][2].M)
(* ---- C24: the open boundary ---- *)
EndsOf(D) == LET q == SeqOf(D.segs) IN TLCEval([n \in 1 .. Len(q) |-> Ends(D, q[n])])
Glues(M, mm, r, c) ==
  LET ctr == r.mesh.center rad == r.mesh.radius n == Len(M.pts) IN
  /\ Chk("C24", "triangles refer to three vertices, all vertices used", IndicesOk(M) /\ AllUsed(M))
  /\ Chk("C24", "vertices at finite positions", RFin(rad) /\ RFin(ctr[1]) /\ RFin(ctr[2]) /\ \A v \in Vs(M) : RFin(M.pts[v][1]) /\ RFin(M.pts[v][2]))
  /\ \E out \in {OutOf(M, rad)} : \E on \in {OnCircle(M, rad)} : \E To \in {Outer(M, out)} :
     LET Ti == Ts(M) \ To P == CirclePolygon(M, on) a == RAbs(Area2(P)) far == {v \in out : FarAway(M.pts[v], rad)}
         I == [M EXCEPT !.pts = Inverted(M, out, rad)] known == {t \in To : \A k \in 1 .. 3 : M.tris[t][k] \notin far}
         ends == LET e == EndsOf(d) IN TLCEval([k \in 1 .. Len(e) |-> <<PSub(e[k][1], ctr), PSub(e[k][2], ctr)>>])
         tol == (E12 (.) (rad (+) RMaxSeq([k \in 1 .. Len(d.pts) |-> PMaxAbs(d.pts[k])])))
         ch == Along([M EXCEPT !.pts = [v \in 1 .. n |-> IF v \in out THEN PMul(M.pts[v], R(10)) ELSE M.pts[v]]], ends, tol) IN
     /\ Chk("C24", "the circle encloses the drawing", \A k \in 1 .. Len(d.pts) : PDist2(d.pts[k], ctr) \prec (rad (.) rad))
     /\ Chk("C24", "the drawing is meshed in place", PointsKept(M, [k \in 1 .. Len(d.pts) |-> PSub(d.pts[k], ctr)], tol) /\ ChainsPresent(M, ends, ch, Undirected(Directed(M)), tol))
     /\ Chk("C24", "a closed surface", Closed(M))
     /\ Chk("C24", "triangles inside the circle cover it once", (\A t \in Ti : ~(Twice(M, t) \doteq 0)) /\ NearRel(SumOver(Ti, LAMBDA t : RAbs(Twice(M, t))), a, a, E9))
     /\ Chk("C24", "triangles outside the circle are air", \A t \in To : LET m == MatT(M, mm, t) IN m.J \doteq 0 /\ Null(m.M) /\ Near(m.mu, MU0, E6 (.) MU0) /\ Len(m.bh) = 0)
     /\ Chk("C24", "the exterior is an inverted mesh of the circle",
          /\ \A v \in out : PNorm2(M.pts[v]) \preceq ((10001 (.) rad) (.) rad)
          /\ \A t \in known : RAbs(Twice(I, t)) \preceq ((2 (.) c.area) (.) (R(1) (+) E6))
          /\ LET s == SumOver(known, LAMBDA t : RAbs(Twice(I, t))) IN IF far = {} THEN NearRel(s, a, a, E9) ELSE s \preceq (a (.) (R(1) (+) E9)) /\ (a (.) RQ(9, 10)) \preceq s)
  /\ \E A \in {SysA(r.s1)} : \E S \in {Grounded(A, n)} : Chk("C24", "three furthest vertices at zero", Cardinality(S) = 3 /\ AreFurthest(M, S) /\ (\A i \in S : r.s1.b[i] \doteq 0 /\ r.s2.b[i] \doteq 0) /\ Grounded(SysA(r.s2), n) = S)
TGen == /\ kind = "mag" /\ IsReturn("gen") /\ UNCHANGED <<d, kind, thick, since, past>>
        /\ \E M \in {MeshIn(Ev.r.mesh)} : \E mm \in {Ev.r.d.props} : \E A1 \in {SysA(Ev.r.s1)} : \E S \in {Grounded(A1, Len(M.pts))} :
           /\ mesh' = M /\ mats' = mm /\ at' = <<Ev.r.mesh.center, Ev.r.mesh.radius>> /\ field' = <<>> /\ asked' = {}
           /\ IF On({"C24"}) THEN Glues(M, mm, Ev.r, Ev.c) ELSE TRUE
           /\ IF On({"C22", "C23"}) THEN Assembled(M, mm, Ev.r, S) ELSE TRUE
           /\ Chk("C23", "magnetisation of the marked areas", MarkersMagnetised(M, mm, Ev.r.mesh.center, OutOf(M, Ev.r.mesh.radius)))
           /\ net' = IF ~On({"C25"}) THEN NoNet ELSE
                LET L == LoadOf(M, mm) RECURSIVE FixAll(_, _) FixAll(s, q) == IF q = {} THEN s ELSE LET i == CHOOSE i \in q : TRUE IN FixAll(Fix(s, i, 0), q \ {i})
                IN FixAll([MkSys(Len(M.pts), Values(Reluctance(M, LAMBDA t : ConstMu(MatT(M, mm, t))))) EXCEPT !.b = TLCEval([i \in 1 .. Len(M.pts) |-> IF <<i, i>> \in DOMAIN L THEN L[<<i, i>>][1] ELSE R(0)])], S)
TMeshed == /\ kind = "mgm" /\ IsReturn("mesh") /\ mesh' = MeshIn(Ev.r.mesh) /\ mats' = Ev.r.d.props /\ at' = <<Ev.r.mesh.center, R(0)>> /\ UNCHANGED <<d, kind, thick, net, field, asked, since, past>>
TSys == /\ IsReturn("magsys") /\ UNCHANGED d /\ Rest /\ (IF On({"C22", "C23"}) THEN Assembled(mesh, mats, Ev.r, {}) ELSE TRUE)
        /\ Chk("C23", "magnetisation of the marked areas", kind = "mag" \/ MarkersMagnetised(mesh, mats, at[1], {}))
(* ---- C25: the potential ---- *)
\* a curve that stands for a constant
StraightBH(m) == LET k == ConstMu(m) IN \A j \in 2 .. Len(m.bh) : NearRel(m.bh[j][1] (-) m.bh[1][1], k (.) (m.bh[j][2] (-) m.bh[1][2]), RAbs(m.bh[j][1]), E9)
AllStraight == \A k \in 1 .. Len(mats) : Len(mats[k].bh) = 0 \/ StraightBH(mats[k])
\* permeability at a field of size b: slope of the piece of the curve
MuAt(m, b) == IF Len(m.bh) = 0 THEN R(m.mu) ELSE LET n == Len(m.bh) k == 1 + Cardinality({j \in 2 .. n - 1 : m.bh[j][1] \prec b}) IN (m.bh[k + 1][1] (-) m.bh[k][1]) (/) (m.bh[k + 1][2] (-) m.bh[k][2])
\* the equations with the permeabilities of the field
CurveNet(B) == LET nB == TLCEval([t \in Ts(mesh) |-> RSqrt(PNorm2(B[t]))]) RECURSIVE FixAll(_, _) FixAll(s, q) == IF q = {} THEN s ELSE LET i == CHOOSE i \in q : TRUE IN FixAll(Fix(s, i, 0), q \ {i})
  IN FixAll([MkSys(net.n, Values(Reluctance(mesh, LAMBDA t : MuAt(MatT(mesh, mats, t), nB[t])))) EXCEPT !.b = net.b], DOMAIN net.fixed)
\* curves that bend only once, at a field so weak that every triangle is beyond it: they act as the slope after the bend
Bent(m) == LET n == Len(m.bh) IN n >= 3 /\ (\A j \in 1 .. n - 1 : m.bh[j][1] \prec E9) /\ R(1000000) \prec m.bh[n][1]
AllBent == \A k \in 1 .. Len(mats) : Len(mats[k].bh) = 0 \/ Bent(mats[k])
AllLinear == \A t \in Ts(mesh) : Len(MatT(mesh, mats, t).bh) = 0
Size(b) == RSqrt(RDot(b, b))
Biggest(x) == RMaxSeq([i \in 1 .. Len(x) |-> RAbs(x[i])])
TSolve == /\ IsReturn("solve") /\ field' = Ev.r.B /\ asked' = {} /\ since' = <<0, R(1)>> /\ UNCHANGED <<d, kind, thick, mesh, at, mats, net>>
          /\ LET x == Ev.r.x big == Biggest(x) IN
             IF ~On({"C25"}) THEN UNCHANGED past ELSE
             /\ past' = <<mesh, net, x>>
             /\ Chk("C25", "finite potentials", Len(x) = net.n /\ \A i \in 1 .. Len(x) : RFin(x[i]))
             /\ Chk("C25", "zero at the fixed vertices", \A i \in DOMAIN net.fixed : RAbs(x[i]) \preceq (E9 (.) big))
             /\ Chk("C25", "zero without sources", (\A i \in 1 .. net.n : net.b[i] \doteq 0) => big \doteq 0)
             /\ Chk("C25", "the potential satisfies the equations", IF AllLinear THEN SolvesNet(net, x, E6) ELSE IF AllStraight THEN SolvesNet(net, x, E6 (.) (R(1) (+) Size(net.b))) ELSE IF AllBent THEN SolvesNet(CurveNet(Ev.r.B), x, E6 (.) (R(1) (+) Size(net.b))) ELSE TRUE)
             /\ Chk("C25", "opposite sources, opposite potential",
                  IF past # <<>> /\ past[1] = mesh /\ DOMAIN net.fixed = DOMAIN past[2].fixed /\ net.A = past[2].A /\ \A i \in 1 .. net.n : net.b[i] \doteq RNeg(past[2].b[i])
                  THEN \A i \in 1 .. net.n : Near(x[i], RNeg(past[3][i]), E6 (.) big) ELSE TRUE)
(* ---- C26: forces ---- *)
Around(p) == {k \in 1 .. Len(d.shapes) : Contains(d.shapes[k], p)}
Body(p) == LET A == Around(p) IN CHOOSE k \in A : \A j \in A : j = k \/ ContainsPolygon(d.shapes[j], d.shapes[k])
BoxGap(x, y) == RMaxSeq(<<R(0), y[1][1] (-) x[2][1], x[1][1] (-) y[2][1], y[1][2] (-) x[2][2], x[1][2] (-) y[2][2]>>)
\* distance, in the maximum norm, from the box around the body to everything else
Corners(b) == <<b[1], <<b[2][1], b[1][2]>>, b[2], <<b[1][1], b[2][2]>>>>
\* (shapes turned into a frame u)
InFrame(u, P) == TLCEval([k \in 1 .. Len(P) |-> <<PDot(u, P[k]), PCross(u, P[k])>>])
Gap(k, u) == LET S == TLCEval([j \in 1 .. Len(d.shapes) |-> InFrame(u, d.shapes[j])]) b == BoxOf(S[k]) c == Corners(b) o == InFrame(u, <<at[1]>>)[1]
              to(j) == IF j \in Around(d.shapes[k][1]) /\ ContainsPolygon(d.shapes[j], d.shapes[k])
                       THEN RSqrt(RMinSeq([e \in 1 .. Len(S[j]) |-> RMinSeq([i \in 1 .. 4 |-> SegDist2(c[i], S[j][e], S[j][Nxt(e, Len(S[j]))])])])) (.) RQ(7, 10)
                       ELSE BoxGap(b, BoxOf(S[j]))
          IN RMinSeq(<<(at[2] (-) RMaxSeq([i \in 1 .. 4 |-> PDist(c[i], o)])) (.) RQ(7, 10)>> \o [j \in 1 .. Len(S) |-> IF j = k \/ ContainsPolygon(d.shapes[k], d.shapes[j]) THEN at[2] ELSE to(j)])
\* the directions of the first sides; the shell is a box in the direction that leaves most room
Direction(j) == LET e == PSub(d.shapes[j][2], d.shapes[j][1]) IN PMul(e, R(1) (/) RSqrt(PNorm2(e)))
Frame(k) == LET g == TLCEval([j \in 1 .. Len(d.shapes) |-> Gap(k, Direction(j))]) j == CHOOSE j \in DOMAIN g : \A i \in DOMAIN g : g[i] \preceq g[j] IN <<Direction(j), g[j]>>
ShellOf(k, M) == LET f == Frame(k) IN Weights([M EXCEPT !.pts = InFrame(f[1], M.pts)], BoxOf(InFrame(f[1], d.shapes[k])), f[2] (.) RQ(9, 10))
InDrawing == [mesh EXCEPT !.pts = [v \in Vs(mesh) |-> PAdd(mesh.pts[v], at[1])]]
Uniform == \A t \in Ts(mesh) : PEq(field[t], field[1])
Biggest2(v) == RSqrt(PNorm2(v))
\* a body of a single conductor without other shapes in it
Mark(P) == LET S == {j \in 1 .. Len(d.marks) : Contains(P, d.marks[j][1])} IN IF Cardinality(S) = 1 THEN d.marks[CHOOSE j \in S : TRUE][2] ELSE [J |-> R(0), M |-> <<R(0), R(0)>>, mu |-> R(1), bh |-> <<>>]
Conductor(k) == LET m == Mark(d.shapes[k]) IN ~(m.J \doteq 0) /\ Null(m.M) /\ Near(m.mu, MU0, E9 (.) MU0) /\ Len(m.bh) = 0 /\ \A j \in 1 .. Len(d.shapes) : j = k \/ ~ContainsPolygon(d.shapes[k], d.shapes[j])
InBody(M, k) == LET b == BoxOf(d.shapes[k]) IN TLCEval({t \in Ts(M) : LET c == Centroid(M, t) IN BoxDist(c, b[1], b[2]) \doteq 0 /\ (\A i \in 1 .. 3 : BoxDist(M.pts[M.tris[t][i]], b[1], b[2]) \preceq E9) /\ Contains(d.shapes[k], c)})
\* answers are compared with earlier ones: twice the field is four times the force, twice the depth twice
Factor(th, k) == (th (.) k) (.) k
\* (the weights come from an iteration that is cut off: its end depends on the size of the field)
Agrees(x, th, k, a, s) == Near(x (.) Factor(a.th, a.k), a.v (.) Factor(th, k), ((IF a.k \doteq k THEN E9 ELSE RQ(2, 1000)) (.) s) (.) Factor(a.th, a.k))
\* the same drawing elsewhere, with all sources multiplied
Moved == PSub(d.shapes[1][1], past[1].shapes[1][1])
Same(u, v, s) == \A i \in 1 .. 2 : Near(u[i], v[i], E9 (.) s)
Times == LET q == {j \in 1 .. Len(d.marks) : ~(past[1].marks[j][2].J \doteq 0)} IN IF q = {} THEN R(0) ELSE LET j == CHOOSE j \in q : TRUE IN d.marks[j][2].J (/) past[1].marks[j][2].J
Copy == /\ past # <<>> /\ Len(past[1].shapes) = Len(d.shapes) /\ Len(past[1].marks) = Len(d.marks) /\ Len(d.shapes) > 0
        /\ LET s == PMaxAbs(d.shapes[1][1]) (+) at[2] IN
           /\ \A k \in 1 .. Len(d.shapes) : Len(d.shapes[k]) = Len(past[1].shapes[k]) /\ \A i \in 1 .. Len(d.shapes[k]) : Same(d.shapes[k][i], PAdd(past[1].shapes[k][i], Moved), s)
           /\ \A j \in 1 .. Len(d.marks) : LET m == d.marks[j] o == past[1].marks[j] IN Same(m[1], PAdd(o[1], Moved), s) /\ m[2].mu \doteq o[2].mu /\ Len(m[2].bh) = 0 /\ Len(o[2].bh) = 0
                /\ Near(m[2].J, Times (.) o[2].J, E9 (.) RAbs(m[2].J)) /\ Same(m[2].M, PMul(o[2].M, Times), PMaxAbs(m[2].M))
\* errors of a coarse mesh, of the scale of the shell; the field of a magnet or an iron body itself is far stronger than what acts on it
Coarse(k) == IF \A j \in 1 .. Len(d.marks) : Contains(d.shapes[k], d.marks[j][1]) => Null(d.marks[j][2].M) /\ Near(d.marks[j][2].mu, MU0, E9 (.) MU0) THEN RQ(6, 100) ELSE RQ(1, 4)
\* what: "x", "y", "t"; an answer x for the body k with centre c; want: value from the shell; s: scale
AnswerIs(what, k, c, x, want, s) ==
  /\ IF Uniform THEN Chk("C26", "no force or torque in a uniform field", Near(x, 0, E9 (.) s))
     ELSE Chk("C26", "force and torque of the field around the body", Near(x, want, Coarse(k) (.) s))
  /\ Chk("C26", "forces in proportion to the square of the field and to the depth; the same from every query", \A a \in asked : (a.what = what /\ a.k = k /\ a.c = c /\ a.n = since[1]) => Agrees(x, thick, since[2], [th |-> a.th, k |-> a.s, v |-> a.v], s))
  /\ Chk("C26", "the same forces for the drawing at another place, in proportion to the square of the sources",
       IF since[1] # 0 \/ ~Copy THEN TRUE ELSE \A a \in past[2] : (a.what = what /\ a.k = k /\ a.n = 0 /\ (what # "t" \/ Same(c, PAdd(a.c, Moved), PMaxAbs(c) (+) at[2]))) =>
           Near(x (.) Factor(a.th, a.s), a.v (.) Factor(thick, since[2] (.) Times), (Coarse(k) (.) s) (.) Factor(a.th, a.s)))
Answers(what, k, c, x) == [what |-> what, k |-> k, c |-> c, n |-> since[1], s |-> since[2], th |-> thick, v |-> x]
ForceIs(M, g, k, f) ==
  \E w \in {ShellForce(M, g, field)} :
  /\ AnswerIs("x", k, <<>>, f[1], thick (.) w[1], thick (.) w[3]) /\ AnswerIs("y", k, <<>>, f[2], thick (.) w[2], thick (.) w[3])
  /\ IF since[1] = 0 /\ since[2] \doteq 1 /\ Conductor(k)
     THEN \E S \in {InBody(M, k)} : \E l \in {LorentzForce(M, S, LAMBDA t : Mark(d.shapes[k]).J, field)} :
          Chk("C26", "force on a conductor", \A i \in 1 .. 2 : Near(f[i], thick (.) l[i], ((RQ(1, 10) (.) l[3]) (+) (RQ(3, 100) (.) w[3])) (.) thick))
     ELSE TRUE
TorqueIs(M, g, k, c, q) == \E w \in {ShellTorque(M, g, field, c)} : AnswerIs("t", k, c, q, thick (.) w[1], thick (.) w[2])
TForce == \E op \in {"force", "torque", "stress"} :
  /\ IsReturn(op) /\ UNCHANGED <<d, kind, thick, mesh, at, mats, net, field, past, since>>
  /\ LET c == Ev.c r == Ev.r k == Body(c.p)
         f == IF op = "force" THEN r.v ELSE IF op = "stress" THEN r.f ELSE <<>> q == IF op = "torque" THEN r.v ELSE IF op = "stress" THEN r.t ELSE R(0)
     IN IF ~On({"C26"}) THEN UNCHANGED asked ELSE
        /\ \E M \in {InDrawing} : \E g \in {ShellOf(k, M)} :
           /\ IF op # "torque" THEN ForceIs(M, g, k, f) ELSE TRUE
           /\ IF op # "force" THEN TorqueIs(M, g, k, c.c, q) ELSE TRUE
        /\ asked' = asked \cup (IF op # "torque" THEN {Answers("x", k, <<>>, f[1]), Answers("y", k, <<>>, f[2])} ELSE {}) \cup (IF op # "force" THEN {Answers("t", k, c.c, q)} ELSE {})
TSetB == /\ UNCHANGED <<d, kind, thick, mesh, at, mats, net, asked, past>>
         /\ \/ IsReturn("setB") /\ field' = TLCEval([t \in 1 .. Ev.r.n |-> Ev.c.B]) /\ since' = <<since[1] + 1, R(1)>>
            \/ IsReturn("scaleB") /\ since' = <<since[1], since[2] (.) Ev.c.k>> /\ field' = TLCEval([t \in 1 .. Ev.r.n |-> PMul(field[t], Ev.c.k)])
TDepth == IsReturn("depth") /\ thick' = R(Ev.c.v) /\ UNCHANGED <<d, kind, mesh, at, mats, net, field, asked, since, past>>
Next == TNew \/ TShape \/ TPoint \/ TRegion \/ TGen \/ TMeshed \/ TSys \/ TSolve \/ TForce \/ TSetB \/ TDepth \/ (Accept /\ UNCHANGED d /\ Rest)
Spec == Init /\ [][Next]_vars
=============================================================================
