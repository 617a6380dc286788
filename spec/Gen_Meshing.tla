----------------------------- MODULE Gen_Meshing -----------------------------
\* Scenarios for C13, C14 (family "mesh"), C15 ("field") and C16 ("section").
EXTENDS Scenes
Conduct == <<R(1), R(2), RQ(1, 10), TenTo(7), RQ(3, 10)>>
MagMats == LET b == [J |-> R(1), M |-> <<R(0), R(0)>>, mu |-> RQ(1, 1000), bh |-> <<>>] IN <<b, [b EXCEPT !.J = R(2)], [b EXCEPT !.M = <<R(1), R(0)>>], [b EXCEPT !.mu = RQ(1, 500)], [b EXCEPT !.J = R(-1)]>>
Kind == <<"cdm", "cur", "mgm", "cdm", "cur">>[1 + (run % 5)]
SKind == <<"cdm", "cur", "mgm", "mag", "mag">>[1 + (run % 5)]
K0 == IF run % 26 = 17 THEN 14 ELSE IF run % 26 = 8 THEN 15 ELSE run % 13
Kx == IF Family = "section" THEN SKind ELSE Kind
S == LET v == Of("mv", Moves) s == Of("sc", Scales) IN IF run % 17 = 3 /\ ~(K0 \in {6, 11}) THEN Placed(Scene(K0, "s"), RQ(1, 1000000), Of("turn", Turns), P2(0, 0)) ELSE Placed(Scene(K0, "s"), s, Of("turn", Turns), <<s (.) v[1], s (.) v[2]>>)
Fan == K0 \in {6, 11}
AreaLim(T) == IF Fan /\ Chance("huge", 70) THEN Of("h", <<RoughArea(T) (.) 1000, TenTo(20), RoughArea(T) (.) 10>>) ELSE RRound(RoughArea(T) (/) R(4 + Pick("div", 40)))
AngleLim == IF Fan THEN 0 ELSE Of("ang", <<0, 10, 20, 28, 33>>)
Refines == K0 \in {2, 5, 10} /\ Chance("ref", 25)
NewC == LET k == Kx IN IF k = "cur" THEN (IF Chance("dep", 50) THEN [op |-> "new", kind |-> k, depth |-> RQ(7, 4)] ELSE [op |-> "new", kind |-> k])
         ELSE IF k = "cdm" THEN [op |-> "new", kind |-> k, depth |-> RQ(1, 8)] ELSE IF k = "mag" THEN [op |-> "new", kind |-> k, depth |-> RQ(5, 2)] ELSE [op |-> "new", kind |-> k]
MeshC(T) == IF Kx \in {"cur", "mag"} THEN [op |-> "gen", refine |-> Refines, area |-> AreaLim(T), angle |-> AngleLim, refmag |-> FALSE] ELSE [op |-> "mesh", area |-> AreaLim(T), angle |-> AngleLim]
Points(T) == IF Fan \/ Chance("pt", 40) THEN [j \in 1 .. Len(T.points) |-> [op |-> "point", p |-> T.points[j]]] ELSE <<>>
Lin(t) == [op |-> t, lin |-> <<PickR(<<t, 1>>, -9, 9, 4), PickR(<<t, 2>>, -9, 9, 2), PickR(<<t, 3>>, -9, 9, 8)>>]
Rndc(t) == [op |-> t, rnd |-> Pick(<<t, "r">>, 10000)]
Centre(p) == IF Chance("own", 30) THEN p ELSE <<RRound(p[1] (+) Of("cx", Scales)), RRound(p[2] (-) PickR("cy", 0, 5, 2))>>
Sections(T) == LET n == Len(T.leaves) c == Centre(T.leaves[1]) IN
  [j \in 1 .. n |-> [op |-> "area", p |-> T.leaves[j]]] \o [j \in 1 .. n |-> [op |-> "bary", p |-> T.leaves[j]]]
  \o [j \in 1 .. n |-> [op |-> "mass", p |-> T.leaves[j], rho |-> RQ(5, 4)]] \o [j \in 1 .. n |-> [op |-> "inertia", p |-> T.leaves[j], c |-> c, rho |-> RQ(3, 2)]]
  \o (IF Kx = "mag" THEN <<>> ELSE <<[op |-> "inner", p |-> T.leaves[1]]>>)
IsMark(c) == c.op = "region"
NotMark(c) == c.op # "region"
Cmds == LET T == S draw == DrawCmds(T, IF Kx \in {"mgm", "mag"} THEN MagMats ELSE IF K0 = 15 THEN Conduct \o [j \in 1 .. 9 |-> RQ(2 * j + 5, 4)] ELSE Conduct, "d") IN
  <<NewC>> \o (IF Family = "mesh" /\ ~Refines /\ Chance("bare", 15) THEN SelectSeq(draw, NotMark) \o <<MeshC(T)>> \o SelectSeq(draw, IsMark) ELSE draw) \o Points(T)
  \o (IF Refines /\ Kx \in {"cdm", "mgm"} THEN <<[op |-> "refine"]>> ELSE <<>>) \o <<MeshC(T)>>
  \o CASE Family = "mesh" -> (IF Chance("again", 10) THEN <<MeshC(T)>> ELSE <<>>)
       [] Family = "field" -> <<Lin("grad"), Lin("curl"), Rndc("grad"), Rndc("curl")>>
       [] Family = "section" -> Sections(T)
Init == GenInit(0 .. Count - 1)
Next == ~fin /\ FinishWith(Family \o ToString(run), Cmds)
Spec == Init /\ [][Next]_gvars
=============================================================================
