---------------------------- MODULE Trace_Drawing ----------------------------
\* Recorded drawing sessions against Drawing.
EXTENDS Drawing, Replay
VARIABLES kind,   \* kind of the object drawn on
          loose,  \* outline whose drawing was refused, or <<>>
          ids     \* <<material, identifier>> pairs seen so far
vars == <<d, rvars, kind, loose, ids>>
Init == DInit /\ ReplayInit /\ kind = "" /\ loose = <<>> /\ ids = {}
Reach(P) == IF P = <<>> THEN R(1) ELSE RMax(R(1), RMaxSeq([k \in 1 .. Len(P) |-> PMaxAbs(P[k])]))
Tol(D) == RMax(2 (.) EPS, E12 (.) Reach(D.pts))
MagKind == kind \in {"mgm", "mag"}
BhSet(b) == {b[k] : k \in 1 .. Len(b)}
SameBh(a, b) == \A x \in BhSet(a) : \E y \in BhSet(b) : PEq(x, y)
SameMat(x, y) == IF ~MagKind THEN x \doteq y ELSE x.J \doteq y.J /\ PEq(x.M, y.M) /\ x.mu \doteq y.mu /\ SameBh(x.bh, y.bh) /\ SameBh(y.bh, x.bh)

(* ---- the drawing shown by a reply is D ---- *)
Matches(r, p, tol) == {j \in 1 .. Len(r.pts) : PNear(r.pts[j], p, tol)}
ShownPoints(r, D) == Len(r.pts) = Len(D.pts) /\ \A k \in 1 .. Len(D.pts) : Matches(r, D.pts[k], Tol(D)) # {}
Index(r, D) == TLCEval([k \in 1 .. Len(D.pts) |-> CHOOSE j \in Matches(r, D.pts[k], Tol(D)) : TRUE])
ShownSegs(r, D) == LET at == Index(r, D) IN
  /\ Len(r.segs) = Cardinality(D.segs)
  /\ {{r.segs[k][1] + 1, r.segs[k][2] + 1} : k \in 1 .. Len(r.segs)} = {{at[a] : a \in s} : s \in D.segs}
\* the same closed outline, wherever its listing starts and whichever way it runs
Fwd(P, Q, o, tol) == \A k \in 1 .. Len(P) : PNear(P[k], Q[1 + ((k + o) % Len(P))], tol)
Bwd(P, Q, o, tol) == \A k \in 1 .. Len(P) : PNear(P[k], Q[1 + ((Len(P) + o - k) % Len(P))], tol)
SameShape(P, Q, tol) == Len(P) = Len(Q) /\ \E o \in 0 .. Len(P) - 1 : Fwd(P, Q, o, tol) \/ Bwd(P, Q, o, tol)
ShownShapes(r, D) == Len(r.polys) = Len(D.shapes) /\ \A k \in 1 .. Len(D.shapes) : SameShape(D.shapes[k], r.polys[k], Tol(D))
ShownMarks(r, D) == Len(r.regs) = Len(D.marks) /\ \A k \in 1 .. Len(D.marks) : PNear(r.regs[k][1], D.marks[k][1], Tol(D))
Shown(r, D) == /\ Chk("C07", "points of the drawing", ShownPoints(r, D))
               /\ Chk("C07", "sides of the drawing", ShownPoints(r, D) => ShownSegs(r, D))
               /\ Chk("C07", "shapes as drawn", ShownShapes(r, D))
               /\ Chk("C07", "region markers kept", ShownMarks(r, D))
\* identifiers: one per material, for good
Learn(r) == ids \cup {<<d'.marks[k][2], r.regs[k][2]>> : k \in (Len(d.marks) + 1) .. Len(d'.marks)}
IdsOk(r, L) == /\ Chk("C09", "one identifier per material", \A x, y \in L : SameMat(x[1], y[1]) = (x[2] = y[2]))
               /\ Chk("C09", "marker recorded with the identifier of its material", \A k \in 1 .. Len(d'.marks) : \E x \in L : SameMat(x[1], d'.marks[k][2]) /\ x[2] = r.regs[k][2])
               /\ Chk("C09", "identifier maps back to its material", \A x \in L : x[2] < Len(r.props) /\ SameMat(r.props[x[2] + 1], x[1]))
ShownAll(r) == Shown(r, d') /\ IF ShownMarks(r, d') THEN ids' = Learn(r) /\ IdsOk(r, Learn(r)) ELSE Chk("C09", "position recorded", FALSE) /\ UNCHANGED ids

TNew == IsReturn("new") /\ d' = Empty /\ kind' = Ev.c.kind /\ loose' = <<>> /\ ids' = {}
Drawn(op) ==
  /\ IsEvent(op) /\ UNCHANGED kind
  /\ LET P == TLCEval(OutlineOf(Ev.c)) IN
     IF Fits(d, P) THEN MustReturn /\ DrawShape(P) /\ UNCHANGED loose /\ ShownAll(Ev.r.d)
     ELSE Clashes(d, P) /\ Chk("C08", "crossing outline refused", Refused) /\ UNCHANGED <<d, ids>> /\ loose' = P
TShape == \E op \in {"rect", "rectwh", "circle", "poly"} : Drawn(op)
TPoint == IsReturn("point") /\ DrawPoint(Ev.c.p) /\ UNCHANGED <<kind, loose>> /\ ShownAll(Ev.r.d)
TRegion == IsReturn("region") /\ DrawRegion(Ev.c.p, Ev.c.prop) /\ UNCHANGED <<kind, loose>> /\ ShownAll(Ev.r.d)
TTranslate == IsReturn("translate") /\ Translate(Ev.c.v) /\ UNCHANGED <<kind, loose>> /\ ShownAll(Ev.r.d)
TShow == /\ IsReturn("show") /\ UNCHANGED <<d, kind, loose>>
         /\ IF loose = <<>> THEN ShownAll(Ev.r.d)
            ELSE /\ UNCHANGED ids
                 /\ LET r == Ev.r.d IN
                    /\ Chk("C07", "earlier points survive a refused shape", \A k \in 1 .. Len(d.pts) : Matches(r, d.pts[k], Tol(d)) # {})
                    /\ Chk("C07", "a refused shape adds no point but its corners", \A j \in 1 .. Len(r.pts) : Has(d, r.pts[j]) \/ Has([pts |-> loose], r.pts[j]))
                    /\ Chk("C07", "earlier sides survive a refused shape", LET at == Index(r, d) rs == {{r.segs[k][1] + 1, r.segs[k][2] + 1} : k \in 1 .. Len(r.segs)} IN \A s \in d.segs : {at[a] : a \in s} \in rs)
                    /\ Chk("C07", "earlier shapes survive a refused shape", Len(r.polys) >= Len(d.shapes) /\ \A k \in 1 .. Len(d.shapes) : SameShape(d.shapes[k], r.polys[k], Tol(d)))
TEpsilon == /\ IsReturn("epsilon") /\ UNCHANGED <<d, kind, loose, ids>>
            /\ Chk("C12", "clearance of the drawing", LET c2 == Clearance2(d) IN NearRel(Ev.r.v (.) Ev.r.v, c2, c2, E6))
TRefine ==
  /\ (IsReturn("refine") \/ IsReturn("refmag")) /\ UNCHANGED <<kind, loose, ids>>
  /\ \E tol \in {Tol(d)} : \E new \in {KeepSeq(Ev.r.d.pts, {j \in 1 .. Len(Ev.r.d.pts) : ~Has(d, Ev.r.d.pts[j])})} : LET r == Ev.r.d n == Len(d.pts) kept == \A k \in 1 .. n : Matches(r, d.pts[k], tol) # {} IN
     /\ Refine(new)
     /\ Chk("C12", "points kept by refinement", Len(r.pts) = n + Len(new) /\ kept)
     /\ Chk("C12", "segments kept by refinement", kept => ShownSegs(r, d))
     /\ Chk("C12", "shapes kept by refinement", ShownShapes(r, d))
     /\ Chk("C12", "markers kept by refinement", ShownMarks(r, d))
     /\ \E c2 \in {Clearance2(d)} : \E S \in {IF Ev.c.op = "refmag" THEN MagnetShapes(d) ELSE {}} :
        IF Ev.c.op = "refine" THEN
          /\ Chk("C12", "added points are safe", \A k \in 1 .. Len(new) : SafePoint(d, c2, new[k]))
          /\ Chk("C12", "every sharp corner is refined", Refined(d, c2, new))
          /\ Chk("C12", "added points are apart", \A j, k \in 1 .. Len(new) : j # k => (c2 (.) TenTo(-8)) \prec PDist2(new[j], new[k]))
        ELSE
          /\ Chk("C12", "points beside magnets", \A k \in 1 .. Len(new) : BesideMagnet(d, S, c2, new[k]))
          /\ Chk("C12", "points beside magnets are apart", \A j, k \in 1 .. Len(new) : j < k => (c2 (.) RQ(1, 400)) \prec PDist2(new[j], new[k]))
          /\ Chk("C12", "points along every side of a magnet", \A k \in PlainMagnets(d) : Lined(d, k, c2, new))
\* generating a system refines the drawing when it is asked to
TGenerate ==
  /\ IsReturn("gen") /\ UNCHANGED <<d, kind, loose, ids>>
  /\ IF Ev.c.refine THEN Chk("C12", "generating refines every sharp corner", Refined(d, Clearance2(d), TLCEval([k \in 1 .. Len(Ev.r.mesh.pts) |-> PAdd(Ev.r.mesh.pts[k], Ev.r.mesh.center)]))) ELSE TRUE
TRegionId ==
  /\ IsReturn("regionid") /\ UNCHANGED <<d, kind, loose>>
  /\ LET L == ids \cup {<<Ev.c.prop, Ev.r.id>>} IN ids' = L /\ IdsOk(Ev.r.d, L)
  /\ Shown(Ev.r.d, d)
TRegionProp ==
  /\ IsEvent("regionprop") /\ UNCHANGED <<d, kind, loose, ids>>
  /\ LET K == {x \in ids : x[2] = Ev.c.id} IN
     IF K = {} THEN Chk("C09", "unknown identifier refused", Refused)
     ELSE MustReturn /\ Chk("C09", "identifier maps back to its material", \A x \in K : SameMat(Ev.r.prop, x[1]))
TPolyProp ==
  /\ IsEvent("polyprop") /\ UNCHANGED <<d, kind, loose, ids>>
  /\ LET P == Ev.c.pts own == OwnMarks(d, P)
         known == \E k \in 1 .. Len(d.shapes) : SameOutline(d.shapes[k], P)
         one == \A x, y \in own : SameMat(d.marks[x][2], d.marks[y][2]) IN
     IF ~known THEN Chk("C09", "unknown shape refused", Refused)
     ELSE IF own = {} THEN Chk("C09", "shape without marker refused", Refused)
     ELSE IF ~one THEN TRUE
     ELSE IF Returned THEN Chk("C09", "material of a shape", SameMat(Ev.r.prop, d.marks[CHOOSE x \in own : TRUE][2])) ELSE Chk("C09", "material of a shape is found", FALSE)
Next == TNew \/ TShape \/ TPoint \/ TRegion \/ TTranslate \/ TShow \/ TRefine \/ TEpsilon \/ TGenerate \/ TRegionId \/ TRegionProp \/ TPolyProp \/ (Accept /\ UNCHANGED <<d, kind, loose, ids>>)
Spec == Init /\ [][Next]_vars
=============================================================================
