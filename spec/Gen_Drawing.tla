---------------------------- MODULE Gen_Drawing ----------------------------
\* Scenarios for C07, C08, C09 and C12.
\*  "pairs":  every ordered pair of rectangles on a 3 x 3 grid
\*  "build":  random drawings
\*  "marks":  nested shapes with region markers
\*  "sharp":  drawings to refine
\*  "magnets": drawings to refine around magnets
EXTENDS Scenes, Drawing
vars == <<gvars, d>>
Kinds == <<"cdm", "mgm", "cur", "mag", "mul">>
Mag(k) == k \in {"mgm", "mag"}
NewCmd(k) == IF k = "mul" THEN [op |-> "new", kind |-> k, n |-> 1] ELSE [op |-> "new", kind |-> k]
Mats(k) == IF Mag(k) THEN LET b == [J |-> R(1), M |-> <<R(0), R(0)>>, mu |-> RQ(1, 1000), bh |-> <<>>] IN
                          <<b, [b EXCEPT !.J = R(2)], [b EXCEPT !.M = <<R(1), R(0)>>], [b EXCEPT !.M = <<R(0), R(1)>>], [b EXCEPT !.mu = RQ(1, 500)],
                            [b EXCEPT !.bh = <<<<R(0), R(0)>>, <<R(1), R(100)>>>>], [b EXCEPT !.bh = <<<<R(0), R(0)>>, <<R(1), R(200)>>>>]>>
           ELSE <<R(1), R(2), RQ(1, 10), TenTo(7), RQ(3, 10), R(0), R(5)>>

Many(k) == IF Mag(k) THEN Mats(k) \o [j \in 1 .. 12 |-> [J |-> R(j), M |-> <<RQ(j, 2), R(0)>>, mu |-> RQ(1, 800), bh |-> <<>>]] ELSE Mats(k) \o [j \in 1 .. 12 |-> RQ(2 * j + 1, 16)]
\* ---- pairs
RectOf(r) == LET cs == <<<<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 2>>, <<1, 3>>, <<2, 3>>>> a == cs[1 + (r % 6)] b == cs[1 + (r \div 6)] IN
             [op |-> "rect", p |-> <<R(a[1]), R(b[1])>>, q |-> <<R(a[2]), R(b[2])>>]
TriOf(r) == LET q == RectOf(r % 36) t == OutlineOf(q) k == r \div 36 IN [op |-> "poly", how |-> "vec", pts |-> KeepIdx(t, {t[x] : x \in (1 .. 4) \ {k + 1}})]
PairCmds(c1, c2) ==
  LET D == WithShape(Empty, OutlineOf(c1)) P == OutlineOf(c2) IN
  IF Fits(D, P) \/ Clashes(D, P) THEN <<NewCmd(Of("k", Kinds)), c1, c2, [op |-> "show"]>> ELSE <<NewCmd("cdm"), c1, [op |-> "show"]>>
PairRuns == {r \in 0 .. 1295 : TRUE}

\* ---- build
GridScale == <<R(1), RQ(1, 8), R(16), RQ(1, 10)>>
Cand(t) ==
  LET s == GridScale[1 + (run % 4)] g(x) == RRound(s (.) x)
      x == R(Pick(<<t, "x">>, 13)) y == R(Pick(<<t, "y">>, 13)) w == R(1 + Pick(<<t, "w">>, 5)) h == R(1 + Pick(<<t, "h">>, 5))
      kind == Pick(<<t, "k">>, 10) IN
  IF kind < 4 THEN IF Chance(<<t, "flip">>, 30) THEN [op |-> "rect", p |-> <<g(x (+) w), g(y)>>, q |-> <<g(x), g(y (+) h)>>] ELSE [op |-> "rect", p |-> <<g(x), g(y)>>, q |-> <<g(x (+) w), g(y (+) h)>>]
  ELSE IF kind = 4 THEN [op |-> "rectwh", p |-> <<g(x), g(y)>>, w |-> g(w), h |-> g(h)]
  ELSE IF kind < 7 THEN [op |-> "circle", p |-> <<g(x), g(y)>>, r |-> g(RQ(1 + Pick(<<t, "r">>, 12), 4)), n |-> 3 + Pick(<<t, "n">>, 12), viaCircle |-> Chance(<<t, "via">>, 50)]
  ELSE LET o == Outline(<<t, "o">>) z == Of(<<t, "z">>, <<R(1), RQ(1, 2)>>) IN
       [op |-> "poly", how |-> Of(<<t, "how">>, <<"vec", "ptr", "polygon">>), pts |-> TLCEval([k \in 1 .. Len(o) |-> <<g(x (+) (z (.) o[k][1])), g(y (+) (z (.) o[k][2]))>>])]
\* sides clear of the merging distance
Fit5 == {t \in 1 .. 5 : Simple(OutlineOf(Cand(t))) /\ Fits(d, OutlineOf(Cand(t)))}
APoint == IF d.pts = <<>> THEN <<R(1), R(1)>> ELSE
  LET k == 1 + Pick("pk", Len(d.pts)) p == d.pts[k] z == Pick("pz", 4)
      q == CASE z = 0 -> p [] z = 1 -> <<p[1] (+) TenTo(-10), p[2]>> [] z = 2 /\ d.segs # {} -> LET e == Ends(d, CHOOSE s \in d.segs : k \in s \/ TRUE) IN Mid(e[1], e[2]) [] OTHER -> <<PickR("px", 0, 60, 4), PickR("py", 0, 60, 4)>> IN
  <<RRound(q[1]), RRound(q[2])>>
PointOk(p) == \A k \in 1 .. Len(d.pts) : LET z == PDist2(d.pts[k], p) IN z \prec TenTo(-19) \/ TenTo(-14) \prec z
BuildStep ==
  LET kind == Kinds[1 + (run % 5)] z == Pick("step", 20) IN
  IF cmds = <<>> THEN Cmd(NewCmd(kind)) /\ UNCHANGED d
  ELSE IF run % 12 = 11 /\ Len(cmds) = 1 THEN \* a large circle
    LET c == [op |-> "circle", p |-> <<R(0), R(0)>>, r |-> TenTo(6), n |-> Of("bn", <<11, 13, 16, 17, 22, 25>>), viaCircle |-> Chance("via", 50)] IN DrawShape(OutlineOf(c)) /\ Cmd(c)
  ELSE IF Len(cmds) > 4 + (run % 8) THEN FinishWith("build" \o ToString(run), <<[op |-> "show"]>>) /\ UNCHANGED d
  ELSE IF z = 0 /\ d.shapes # <<>> THEN LET v == Of("mv", <<<<R(3), R(-5)>>, <<RQ(-1, 4), RQ(1, 8)>>>>) IN Translate(v) /\ Cmd([op |-> "translate", v |-> v])
  ELSE IF z \in {1, 2, 3} THEN LET p == APoint IN IF PointOk(p) THEN DrawPoint(p) /\ Cmd([op |-> "point", p |-> p]) ELSE Cmd([op |-> "show"]) /\ UNCHANGED d
  ELSE IF z = 4 THEN LET p == APoint m == Of("m", Mats(kind)) IN DrawRegion(p, m) /\ Cmd([op |-> "region", p |-> p, prop |-> m])
  ELSE IF z = 5 /\ d.shapes # <<>> THEN \* the same outline again, in another presentation
    LET P == d.shapes[1 + Pick("again", Len(d.shapes))] Q == From(IF Chance("r", 50) THEN Reversed(P) ELSE P, Pick("f", Len(P)))
        c == [op |-> "poly", how |-> "vec", pts |-> TLCEval([k \in 1 .. Len(Q) |-> <<RRound(Q[k][1]), RRound(Q[k][2])>>])] IN
    IF Fits(d, c.pts) THEN DrawShape(c.pts) /\ Cmd(c) ELSE Cmd([op |-> "show"]) /\ UNCHANGED d
  ELSE LET F == Fit5 IN
    IF F # {} /\ ~(z = 6 /\ Simple(OutlineOf(Cand(1))) /\ Clashes(d, OutlineOf(Cand(1)))) THEN LET t == CHOOSE t \in F : \A u \in F : t <= u c == Cand(t) IN DrawShape(OutlineOf(c)) /\ Cmd(c)
    ELSE IF Simple(OutlineOf(Cand(1))) /\ Clashes(d, OutlineOf(Cand(1))) THEN FinishWith("build" \o ToString(run), <<Cand(1), [op |-> "show"]>>) /\ UNCHANGED d
    ELSE Cmd([op |-> "show"]) /\ UNCHANGED d

\* ---- marks: shapes from a nest of squares, some side by side, marks inside them, queries
Nest == <<Box(<<R(0), R(0)>>, <<R(64), R(64)>>), Box(<<R(4), R(4)>>, <<R(30), R(60)>>), Box(<<R(34), R(4)>>, <<R(60), R(60)>>), Box(<<R(8), R(8)>>, <<R(26), R(30)>>), Box(<<R(8), R(34)>>, <<R(26), R(56)>>),
          Box(<<R(12), R(12)>>, <<R(20), R(20)>>), I2(<<<<38, 8>>, <<56, 8>>, <<56, 40>>, <<50, 40>>, <<50, 16>>, <<44, 16>>, <<44, 40>>, <<38, 40>>>>), Box(<<R(44), R(16)>>, <<R(50), R(40)>>),
          I2(<<<<36, 44>>, <<58, 44>>, <<47, 58>>>>), Box(<<R(26), R(8)>>, <<R(28), R(30)>>)>>
Spot == <<<<R(2), R(2)>>, <<R(6), R(6)>>, <<R(36), R(6)>>, <<R(10), R(10)>>, <<R(10), R(36)>>, <<R(14), R(14)>>, <<R(40), R(10)>>, <<R(47), R(20)>>, <<R(47), R(46)>>, <<R(27), R(9)>>>>
MarkStep ==
  LET kind == Kinds[1 + (run % 5)] n == 3 + (run % 7)
      sc == GridScale[1 + ((run \div 5) % 3)] IN
  IF cmds = <<>> THEN Cmd(NewCmd(kind)) /\ UNCHANGED d
  ELSE IF Len(d.shapes) < n THEN
    LET left == {k \in 1 .. Len(Nest) : \A q \in 1 .. Len(d.shapes) : ~SameOutline(d.shapes[q], MapAll(sc, <<R(0), R(0)>>, Nest[k]))}
        seq == KeepIdx([k \in 1 .. Len(Nest) |-> k], left) k == Of("sh", seq) P == MapAll(sc, <<R(0), R(0)>>, Nest[k]) IN
    IF Fits(d, P) THEN DrawShape(P) /\ Cmd([op |-> "poly", how |-> "vec", pts |-> P]) ELSE FinishWith("marks" \o ToString(run), <<>>) /\ UNCHANGED d
  ELSE IF Len(d.marks) < n /\ Len(cmds) < 2 * n + 6 THEN
    IF Chance("rid", 12) THEN UNCHANGED d /\ Cmd([op |-> "regionid", prop |-> Of("m", Mats(kind))])
    ELSE LET k == Pick("sp", Len(Spot)) + 1 p == Map(sc, <<R(0), R(0)>>, Spot[k]) m == Of("m", Mats(kind)) IN DrawRegion(p, m) /\ Cmd([op |-> "region", p |-> p, prop |-> m])
  ELSE IF run % 8 = 4 /\ Len(cmds) < 44 THEN
    UNCHANGED d /\ Cmd([op |-> "regionid", prop |-> Of("mm", Many(kind))])
  ELSE /\ FinishWith("marks" \o ToString(run),
            [k \in 1 .. Len(d.shapes) |-> [op |-> "polyprop", pts |-> d.shapes[k]]]
            \o <<[op |-> "polyprop", pts |-> MapAll(sc, <<R(0), R(0)>>, Box(<<R(1), R(1)>>, <<R(63), R(63)>>))], [op |-> "polyprop", pts |-> SubSeq(d.shapes[1], 1, 3)]>>
            \o [k \in 1 .. 4 |-> [op |-> "regionprop", id |-> k - 1, byvalue |-> FALSE]] \o [k \in 1 .. 3 |-> [op |-> "regionprop", id |-> k - 1, byvalue |-> TRUE]]
            \o <<[op |-> "regionprop", id |-> 77, byvalue |-> FALSE], [op |-> "regionprop", id |-> 77, byvalue |-> TRUE], [op |-> "translate", v |-> <<R(128), R(-64)>>],
                 [op |-> "polyprop", pts |-> Shift(d.shapes[1], <<R(128), R(-64)>>)]>>)
       /\ UNCHANGED d

\* the same shapes, moved so that a corner falls on a drawn point
Joined(t) == LET P == OutlineOf(Cand(t)) a == P[1 + Pick(<<t, "ja">>, Len(P))] b == d.pts[1 + Pick(<<t, "jb">>, Len(d.pts))] IN
  [op |-> "poly", how |-> "vec", pts |-> TLCEval([k \in 1 .. Len(P) |-> IF PEq(P[k], a) THEN b ELSE <<RRound((P[k][1] (-) a[1]) (+) b[1]), RRound((P[k][2] (-) a[2]) (+) b[2])>>])]
Fit8 == {t \in 1 .. 8 : Simple(OutlineOf(Joined(t))) /\ Fits(d, OutlineOf(Joined(t)))}
\* ---- sharp: a few shapes, perhaps isolated points, refined (twice at times)
SharpStep ==
  LET kind == Kinds[1 + (run % 5)] IN
  IF cmds = <<>> THEN Cmd(NewCmd(kind)) /\ UNCHANGED d
  ELSE IF Len(d.shapes) < 1 + (run % 3) /\ Len(cmds) < 8 THEN
    IF d.shapes # <<>> /\ run % 2 = 0 /\ Fit8 # {} THEN LET t == CHOOSE t \in Fit8 : \A u \in Fit8 : t <= u c == Joined(t) IN DrawShape(OutlineOf(c)) /\ Cmd(c)
    ELSE LET F == Fit5 IN IF F # {} THEN LET t == CHOOSE t \in F : \A u \in F : t <= u c == Cand(t) IN DrawShape(OutlineOf(c)) /\ Cmd(c) ELSE Cmd([op |-> "show"]) /\ UNCHANGED d
  ELSE IF d.shapes # <<>> /\ run % 4 = 1 /\ Len(cmds) < 6 THEN LET p == APoint IN IF PointOk(p) THEN DrawPoint(p) /\ Cmd([op |-> "point", p |-> p]) ELSE Cmd([op |-> "show"]) /\ UNCHANGED d
  ELSE FinishWith("sharp" \o ToString(run), IF d.shapes = <<>> THEN <<>> ELSE <<[op |-> "region", p |-> <<R(1), R(2)>>, prop |-> Mats(kind)[1]], [op |-> "epsilon"], [op |-> "refine"]>>) /\ UNCHANGED d

\* ---- refined: a scene, refined while its system is generated
RefinedScene ==
  LET kind == Of("rk", <<"cur", "mag", "cur">>)
      T == Placed(Scene(Of("sc", <<0, 1, 2, 3, 5, 9, 10, 12>>), "s"), Of("sz", Scales), Of("turn", Turns), Of("mv", Moves)) IN
  <<NewCmd(kind)>> \o DrawCmds(T, Mats(kind), "d") \o <<[op |-> "gen", refine |-> TRUE, area |-> RRound(RoughArea(T)), angle |-> 0, refmag |-> FALSE]>>
\* ---- magnets: a scene with magnets, refined around them
\* (as long as not too many points are to be expected)
MagnetScene ==
  LET kind == Of("mk", <<"mgm", "mag">>)
      T == Placed(Scene(Of("sc", <<0, 0, 1, 2, 3, 4, 5, 8, 9, 10, 12>>), "s"), Of("sz", Scales), Of("turn", Turns), Of("mv", Moves))
      n == Len(T.shapes)
      RECURSIVE DrawnAs(_, _) DrawnAs(E, k) == IF k > n THEN E ELSE DrawnAs(WithShape(E, T.shapes[k]), k + 1)
      D == DrawnAs(Empty, 1)
      long == RSum([k \in 1 .. n |-> RSum([e \in 1 .. Len(T.shapes[k]) |-> RSqrt(PDist2(T.shapes[k][e], T.shapes[k][Nxt(e, Len(T.shapes[k]))]))])])
      few == (long (.) 10) \preceq (RSqrt(Clearance2(D)) (.) 400) IN
  <<NewCmd(kind)>> \o DrawCmds(T, IF Chance("plain", 15) THEN <<Mats(kind)[1], Mats(kind)[2]>> ELSE SubSeq(Mats(kind), 2, 5), "d") \o <<[op |-> "epsilon"]>>
  \o (IF few THEN <<[op |-> "refmag"]>> ELSE <<>>) \o (IF Chance("then", 40) THEN <<[op |-> "refine"]>> ELSE <<>>)
Init == DInit /\ GenInit(IF Family = "pairs" THEN PairRuns ELSE 0 .. Count - 1)
Next == ~fin /\ CASE Family = "pairs" -> FinishWith("pair" \o ToString(run), IF Count = 0 THEN PairCmds(RectOf(run % 36), RectOf(run \div 36)) ELSE PairCmds(RectOf(run % 36), TriOf((run \div 36) + 36 * (run % 4)))) /\ UNCHANGED d
                  [] Family = "build" -> BuildStep
                  [] Family = "marks" -> MarkStep
                  [] Family = "sharp" -> SharpStep
                  [] Family = "refined" -> FinishWith("refined" \o ToString(run), RefinedScene) /\ UNCHANGED d
                  [] Family = "magnets" -> FinishWith("magnets" \o ToString(run), MagnetScene) /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
=============================================================================
