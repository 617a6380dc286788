---------------------------- MODULE Trace_Meshing ----------------------------
\* Recorded meshing sessions against Drawing and Meshing.
EXTENDS Drawing, Meshing, Replay
VARIABLES kind, depth,
          mesh    \* the last mesh, in the coordinates of the drawing; <<>> before the first
vars == <<d, rvars, kind, depth, mesh>>
Init == DInit /\ ReplayInit /\ kind = "" /\ depth = R(1) /\ mesh = <<>>
Reach(P) == RMaxSeq([k \in 1 .. Len(P) |-> PMaxAbs(P[k])])
MTol(P) == E12 (.) Reach(P)
MagKind == kind \in {"mgm", "mag"}
SameMat(x, y) == IF ~MagKind THEN x \doteq y ELSE x.J \doteq y.J /\ PEq(x.M, y.M) /\ x.mu \doteq y.mu /\ Len(x.bh) = Len(y.bh)
MeshOf(r) == TLCEval([pts |-> [k \in 1 .. Len(r.pts) |-> PAdd(r.pts[k], r.center)], tris |-> [k \in 1 .. Len(r.tris) |-> <<r.tris[k][1] + 1, r.tris[k][2] + 1, r.tris[k][3] + 1>>], attr |-> r.attr])
EndsOf(D) == LET q == SeqOf(D.segs) IN TLCEval([n \in 1 .. Len(q) |-> Ends(D, q[n])])

TNew == IsReturn("new") /\ d' = Empty /\ kind' = Ev.c.kind /\ depth' = (IF "depth" \in DOMAIN Ev.c THEN R(Ev.c.depth) ELSE R(1)) /\ mesh' = <<>>
TShape == /\ \E op \in {"rect", "rectwh", "circle", "poly"} : IsReturn(op)
          /\ d' = WithShape(d, OutlineOf(Ev.c)) /\ UNCHANGED <<kind, depth, mesh>>
TPoint == IsReturn("point") /\ DrawPoint(Ev.c.p) /\ UNCHANGED <<kind, depth, mesh>>
TRegion == IsReturn("region") /\ DrawRegion(Ev.c.p, Ev.c.prop) /\ UNCHANGED <<kind, depth, mesh>>
TRefine == IsReturn("refine") /\ UNCHANGED <<d, kind, depth, mesh>>
\* C13
Triangulates(M, r, c) ==
  LET E == Directed(M) U == Undirected(E) tol == MTol(M.pts) ends == EndsOf(d) ch == Along(M, ends, tol) IN
  /\ Chk("C13", "triangles refer to three vertices", IndicesOk(M))
  /\ Chk("C13", "triangles counter-clockwise", Positive(M))
  /\ Chk("C13", "triangles meet edge to edge", EdgeToEdge(M, E))
  /\ Chk("C13", "every vertex used", AllUsed(M))
  /\ Chk("C13", "drawn points are vertices", PointsKept(M, d.pts, tol) /\ PointsKept(M, r.d.pts, tol))
  /\ Chk("C13", "drawn segments are chains of edges", ChainsPresent(M, ends, ch, U, tol) /\ (c.angle > 0 => NoJumps(ch, U)))
  /\ Chk("C13", "the mesh ends at drawn segments", RimOnSegments(E, ch))
  /\ Chk("C13", "every shape covered once", \A k \in 1 .. Len(d.shapes) : Covered(M, d.shapes[k]))
  /\ Chk("C13", "maximum area respected", MaxArea(M, c.area))
  /\ Chk("C13", "minimum angle respected", (c.angle > 0 /\ Blunt(ends, tol)) => MinAngle(M, c.angle, ends, ch, tol))
\* C14
Labelled(M, r) ==
  LET ch == Along(M, EndsOf(d), MTol(M.pts)) IN
  /\ Chk("C14", "labels are materials", \A t \in Ts(M) : M.attr[t] >= 0 /\ M.attr[t] < Len(r.d.props))
  /\ Chk("C14", "one material per area", LabelsUniform(M, ch))
  /\ Chk("C14", "material of the marker in the area", \A k \in 1 .. Len(d.marks) : LET h == Holders(M, d.marks[k][1]) IN h # {} /\ \A t \in h : SameMat(r.d.props[M.attr[t] + 1], d.marks[k][2]))
\* without markers there is no material to give
TBare == /\ (IsEvent("mesh") \/ IsEvent("gen")) /\ d.marks = <<>> /\ kind # "mag" /\ UNCHANGED <<d, kind, depth, mesh>>
         /\ Chk("C14", "refused without markers", Refused)
TMesh == /\ IsReturn("mesh") \/ IsReturn("gen")
         /\ d.marks # <<>> \/ kind = "mag"
         /\ LET M == MeshOf(Ev.r.mesh) IN
            /\ mesh' = M
            /\ IF kind # "mag" /\ "C13" \in Focus THEN Triangulates(M, Ev.r, Ev.c) ELSE TRUE
            /\ IF kind # "mag" /\ "C14" \in Focus THEN Labelled(M, Ev.r) ELSE TRUE
         /\ UNCHANGED <<d, kind, depth>>
\* C15
TField == \E op \in {"grad", "curl"} :
  /\ IsReturn(op) /\ UNCHANGED <<d, kind, depth, mesh>>
  /\ LET r == Ev.r c == Ev.c IN
     /\ Chk("C15", "one value per triangle", Len(r.v) = Len(mesh.tris) /\ Len(r.z) = Len(mesh.pts))
     /\ Chk("C15", "values of the nodes kept", \A k \in 1 .. Len(r.z) : r.z[k] \doteq r.z2[k])
     /\ Chk("C15", op \o " exact on every triangle", \A t \in Ts(mesh) : Twice(mesh, t) \doteq 0 \/ (IF op = "grad" THEN GradIs(mesh, t, r.z, r.v[t]) ELSE CurlIs(mesh, t, r.z, r.v[t])))
\* C16
Around(p) == {k \in 1 .. Len(d.shapes) : Contains(d.shapes[k], p)}
Leafs(p) == {k \in Around(p) : \A j \in 1 .. Len(d.shapes) : j = k \/ (IF j \in Around(p) THEN ContainsPolygon(d.shapes[j], d.shapes[k]) ELSE ~ContainsPolygon(d.shapes[k], d.shapes[j]))}
Clear(p) == \A k \in 1 .. Len(d.shapes) : ~OnOutline(d.shapes[k], p)
TSection == \E op \in {"area", "mass", "bary", "inertia", "inner"} :
  /\ IsEvent(op) /\ UNCHANGED <<d, kind, depth, mesh>>
  /\ LET c == Ev.c r == Ev.r L == Leafs(Ev.c.p) IN
     IF L = {} \/ ~Clear(c.p) THEN TRUE
     ELSE /\ MustReturn
          /\ LET P == d.shapes[CHOOSE k \in L : TRUE] a == PArea(P) size == RSqrt(a) IN
             CASE op = "area" -> Chk("C16", "area of the shape", NearRel(r.v, a, a, E9))
               [] op = "mass" -> Chk("C16", "mass of the shape", LET w == (a (.) depth) (.) c.rho IN NearRel(r.v, w, w, E9))
               [] op = "bary" -> Chk("C16", "barycentre of the shape", PNear(r.v, PBary(P), (E9 (.) size) (+) (E12 (.) Reach(P))))
               [] op = "inertia" -> Chk("C16", "moment of inertia of the shape", LET k == depth (.) c.rho i0 == PPolar(P, c.c) i1 == i0 (-) CentroidError(mesh, Inside(mesh, P)) IN NearRel(r.v, k (.) i1, k (.) i0, E9))
               [] op = "inner" -> Chk("C16", "innermost shape", Len(r.v) = Len(P) /\ \A k \in 1 .. Len(P) : \E j \in 1 .. Len(P) : PNear(r.v[j], P[k], EPS))
Next == TNew \/ TShape \/ TPoint \/ TRegion \/ TRefine \/ TBare \/ TMesh \/ TField \/ TSection \/ (Accept /\ UNCHANGED <<d, kind, depth, mesh>>)
Spec == Init /\ [][Next]_vars
=============================================================================
