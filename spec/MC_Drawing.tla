------------------------------ MODULE MC_Drawing ------------------------------
\* Exhaustive: up to DEPTH shapes out of all rectangles and right triangles on a grid, in every order.
EXTENDS Drawing
CONSTANTS N, DEPTH, FULL
VARIABLE last
G == 0 .. N
Rects == {<<<<R(a), R(b)>>, <<R(c), R(b)>>, <<R(c), R(e)>>, <<R(a), R(e)>>>> : <<a, b, c, e>> \in {t \in G \X G \X G \X G : t[1] < t[3] /\ t[2] < t[4]}}
Tris == {<<<<R(a), R(b)>>, <<R(c), R(b)>>, <<R(a), R(e)>>>> : <<a, b, c, e>> \in {t \in G \X G \X G \X G : t[1] # t[3] /\ t[2] # t[4]}}
Shapes == Rects \cup (IF FULL THEN Tris ELSE {P \in Tris : P[1][1] \prec P[2][1]})
Init == DInit /\ last = "none"
Next == \/ Len(d.shapes) < DEPTH /\ \E P \in Shapes : DrawShape(P) /\ last' = "shape"
        \/ Len(d.shapes) = 1 /\ last = "shape" /\ d.marks = <<>> /\ DrawRegion(<<RQ(1, 3), RQ(1, 3)>>, "m") /\ last' = "region"
        \/ Len(d.shapes) = 1 /\ last = "shape" /\ \E p \in {<<R(0), R(0)>>, <<RQ(1, 2), RQ(1, 2)>>} : DrawPoint(p) /\ last' = "point"
        \/ Len(d.shapes) = 1 /\ last = "shape" /\ Translate(<<RQ(5, 2), R(-1)>>) /\ last' = "moved"
Spec == Init /\ [][Next]_<<d, last>>
\* on exact coordinates every shape either fits, or clashes, or overlaps an earlier side from a common corner
FitsOrClashes == \A P \in Shapes : ~(Fits(d, P) /\ Clashes(d, P))
\* whether two shapes clash does not depend on which is drawn first
Mutual == Len(d.shapes) = 0 => \A P, Q \in Shapes : Clashes(WithShape(Empty, P), Q) = Clashes(WithShape(Empty, Q), P) /\ Fits(WithShape(Empty, P), Q) = Fits(WithShape(Empty, Q), P)
\* a shape always fits onto itself, in any presentation
Idempotent == \A k \in 1 .. Len(d.shapes) : Fits(d, d.shapes[k]) /\ WithShape(d, d.shapes[k]).segs = d.segs /\ WithShape(d, d.shapes[k]).pts = d.pts
\* earlier shapes are unaffected
Monotone == [][last' \in {"shape", "region", "point"} => /\ SubSeq(d'.shapes, 1, Len(d.shapes)) = d.shapes
                                                         /\ SubSeq(d'.pts, 1, Len(d.pts)) = d.pts /\ d.segs \subseteq d'.segs]_<<d, last>>
=============================================================================
