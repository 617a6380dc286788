------------------------------- MODULE Stacks -------------------------------
\* Several layers with resistors between them, used by the scenario generators.
EXTENDS Scenes
Palettes == <<<<R(1), R(2), RQ(1, 2), RQ(3, 10), R(5)>>, <<TenTo(7), 2 (.) TenTo(7), 5 (.) TenTo(7), 6 (.) TenTo(7), RQ(7, 2) (.) TenTo(7)>>,
              <<RQ(1, 100), RQ(1, 50), RQ(3, 100), RQ(1, 100), RQ(1, 20)>>, <<R(3), RQ(1, 8), R(3), R(40), R(1)>>>>
Pal == Of("pal", Palettes)
Tame == LET s == Of("sc", <<R(1), RQ(1, 8), RQ(1, 1000)>>) IN <<s, Of("turn", Turns), Of("tv", <<<<R(0), R(0)>>, <<s (.) 40, s (.) (-25)>>>>)>>
AngleLim == Of("ang", <<0, 10, 20, 28, 33>>)
Depths == <<R(1), RQ(7, 4), RQ(1, 8), RQ(35, 1000000)>>
Distinct(t) == R(7 * t - 10) (.) Of("vs", <<R(1), RQ(1, 4), R(100), R(0)>>)
(* ---- several layers ---- *)
\* a scene for a layer and places in it where resistors and voltages may go; the ones within a side only where coordinates
\* on the side are exact
LScenes == <<1, 2, 4, 8, 9, 7>>
Q2(a, b) == <<a, b>>
Taps(k) == CASE k = 1 -> <<P2(1, 1), P2(1, 6), P2(7, 7), P2(8, 8)>>
             [] k = 2 -> <<P2(1, 1), P2(2, 2), P2(6, 1), P2(0, 0), P2(4, 3)>>
             [] k = 4 -> <<P2(1, 1), P2(4, 4), P2(6, 1), P2(7, 4), P2(8, 0)>>
             [] k = 8 -> <<Q2(RQ(1, 2), RQ(1, 2)), P2(2, 2), P2(4, 4), P2(1, 1)>>
             [] k = 9 -> <<Q2(RQ(1, 2), RQ(1, 2)), P2(2, 2), P2(2, 3), P2(1, 1)>>
             [] k = 7 -> <<Q2(R(1), RQ(1, 4)), Q2(R(4), RQ(1, 4)), Q2(R(7), RQ(1, 4)), P2(0, 0)>>
SideTaps(k) == CASE k = 1 -> <<P2(0, 4), P2(8, 3)>> [] k = 2 -> <<P2(4, 1)>> [] k = 4 -> <<P2(2, 0)>> [] k = 8 -> <<P2(1, 4)>> [] k = 9 -> <<P2(0, 1)>> [] k = 7 -> <<P2(3, 0)>>
NL == 1 + Pick("nl", 3)
LK(l) == Of(<<"ls", l>>, LScenes)
LT(l) == LET t == Tame IN Placed(Scene(LK(l), <<"s", l>>), t[1], t[2], t[3])
LTaps(l) == LET t == Tame IN PlaceAll(t[1], t[2], t[3], IF t[2][1] \doteq RQ(3, 5) THEN Taps(LK(l)) ELSE Taps(LK(l)) \o SideTaps(LK(l)))
OnLayer(q, l) == [j \in 1 .. Len(q) |-> q[j] @@ [layer |-> l - 1]]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
NewMul(n) == IF Chance("dep", 75) THEN [op |-> "new", kind |-> "mul", n |-> n, depths |-> [l \in 1 .. n |-> Of(<<"dv", l>>, Depths)]] ELSE [op |-> "new", kind |-> "mul", n |-> n]
DrawL(n) == Cat([l \in 1 .. n |-> OnLayer(DrawCmds(LT(l), Pal, <<"d", l>>) \o (IF Chance(<<"pt", l>>, 40) THEN [j \in 1 .. Len(LT(l).points) |-> [op |-> "point", p |-> LT(l).points[j]]] ELSE <<>>), l)])
Ohms == <<R(2), RQ(1, 2), R(10), RQ(1, 1000), R(1000), RQ(1, 3)>>
Conn(a, i, b, j, t) == [op |-> "connect", p1 |-> LTaps(a)[i], p2 |-> LTaps(b)[j], l1 |-> a - 1, l2 |-> b - 1, R |-> Of(<<t, "R">>, Ohms)]
\* next to the middle of a side
Beside(l, t) ==
  LET S == LT(l) P == Of(<<t, "bs">>, S.shapes) n == Len(P) e == IF Chance(<<t, "bl">>, 40) THEN n ELSE 1 + Pick(<<t, "be">>, n) a == P[e] b == P[Nxt(e, n)]
      off(f) == LET m == Mid(a, b) IN <<RRound(m[1] (+) (f (.) (a[2] (-) b[2]))), RRound(m[2] (+) (f (.) (b[1] (-) a[1])))>>
      f == Of(<<t, "bf">>, <<RQ(3, 23), RQ(1, 19)>>) IN
  IF Interior(P, off(f)) THEN off(f) ELSE IF Interior(P, off(R(0) (-) f)) THEN off(R(0) (-) f) ELSE IF Interior(P, off(RQ(1, 83))) THEN off(RQ(1, 83)) ELSE off(RQ(-1, 83))
Place2(l, t) == IF Chance(<<t, "by">>, 35) THEN Beside(l, t) ELSE LTaps(l)[1 + Pick(<<t, "tap">>, Len(LTaps(l)))]
RandTap(l, t) == 1 + Pick(<<t, "tap">>, Len(LTaps(l)))
ConnBy(n, t) == LET a == 1 + Pick(<<t, "a">>, n) b == 1 + Pick(<<t, "b">>, n) IN [op |-> "connect", p1 |-> Place2(a, <<t, 1>>), p2 |-> Place2(b, <<t, 2>>), l1 |-> a - 1, l2 |-> b - 1, R |-> Of(<<t, "R">>, Ohms)]
RandConn(n, t) == LET a == 1 + Pick(<<t, "a">>, n) b == 1 + Pick(<<t, "b">>, n) IN Conn(a, RandTap(a, <<t, 1>>), b, RandTap(b, <<t, 2>>), t)
Chain(n) == [l \in 1 .. n - 1 |-> Conn(l, RandTap(l, <<"ch", l, 1>>), l + 1, RandTap(l + 1, <<"ch", l, 2>>), <<"ch", l>>)]
LooseBy(n, m) == [k \in 1 .. m |-> ConnBy(n, <<"lo", k>>)]
Loose(n, m) == [k \in 1 .. m |-> RandConn(n, <<"lo", k>>)]
Flipped(c, t) == [op |-> "connect", p1 |-> c.p2, p2 |-> c.p1, l1 |-> c.l2, l2 |-> c.l1, R |-> Of(<<t, "R">>, Ohms)]
Twin(c, t) == [c EXCEPT !.R = Of(<<t, "R">>, Ohms)]
\* some are joined again, in either direction
Again(q) == IF q = <<>> THEN q ELSE q \o (IF Chance("twin", 40) THEN <<Twin(q[1], "tw")>> ELSE <<>>) \o (IF Chance("back", 40) THEN <<Flipped(q[Len(q)], "bk")>> ELSE <<>>)
SelfLoop(n) == IF Chance("self", 20) THEN LET l == 1 + Pick("sl", n) k == RandTap(l, "sl") IN <<Conn(l, k, l, k, "sl")>> ELSE <<>>
GenL(n, more) == [op |-> "gen", refine |-> ((\A l \in 1 .. n : LK(l) = 2) /\ Chance("ref", 30)), area |-> RRound(RoughArea(LT(1)) (/) R(2 + Pick("div", 12))), angle |-> AngleLim] @@ more
SetL(l, k, v) == [op |-> "setv", p |-> LTaps(l)[k], V |-> v, layer |-> l - 1]
ConnsFor(n) == Chain(n) \o Loose(n, Pick("nlo", 2))
Sets(n) == IF Chance("all", 50) THEN [l \in 1 .. n |-> SetL(l, 1, Distinct(l))] ELSE <<SetL(1 + Pick("sl", n), 1, Distinct(1))>> \o (LET l == 1 + Pick("sm", n) IN <<SetL(l, Len(LTaps(l)), Distinct(2))>>)
=============================================================================
