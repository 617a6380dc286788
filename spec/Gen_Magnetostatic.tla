-------------------------- MODULE Gen_Magnetostatic --------------------------
\* Scenarios for C22 (family "system"), C23 ("magnet"), C24 ("open"), C25 ("potential") and C26 ("force").
EXTENDS Scenes
Mu0 == RRound((4 (.) RPi) (.) TenTo(-7))
Z2 == <<R(0), R(0)>>
Stuff(j, m, k) == [J |-> j, M |-> m, mu |-> RRound(Mu0 (.) k), bh |-> <<>>]
AirM == Stuff(R(0), Z2, R(1))
\* currents and permeabilities
Plain == <<Stuff(R(1), Z2, R(1)), Stuff(R(0), Z2, R(1000)), Stuff(RQ(-5, 2), Z2, R(4)), Stuff(TenTo(6), Z2, R(1)), Stuff(R(0), Z2, R(1)), Stuff(RQ(-1, 1000), Z2, R(7))>>
Dirs8 == <<<<R(1), R(0)>>, <<R(0), R(1)>>, <<R(-1), R(0)>>, <<R(3), R(-4)>>, <<R(-5), R(12)>>, <<RQ(1, 2), RQ(1, 3)>>>>
MagM(t) == LET v == Of(<<t, "dir">>, Dirs8) s == Of(<<t, "str">>, <<R(1), TenTo(5), RQ(1, 10)>>) IN <<RRound(v[1] (.) s), RRound(v[2] (.) s)>>
Magnets == <<Stuff(R(0), MagM(1), R(1)), Stuff(R(2), MagM(2), R(1)), Stuff(R(0), MagM(3), R(2)), AirM, Stuff(R(-3), Z2, R(500))>>
\* (tiny drawings, too)
T0 == LET v == Of("mv", Moves) s == IF Family \in {"system", "magnet"} /\ Chance("tiny", 12) THEN RQ(1, 65536) ELSE Of("sc", Scales) IN <<s, Of("turn", Turns), <<s (.) v[1], s (.) v[2]>>>>
K0 == run % 13
One(k) == LET t == T0 IN Placed(Scene(k, "s"), t[1], t[2], t[3])
Fan(k) == k \in {6, 11}
AreaLim(T) == RRound(RoughArea(T) (/) R(3 + Pick("div", 16)))
AngleLim == Of("ang", <<0, 10, 20, 28, 33>>)
New(k) == [op |-> "new", kind |-> k]
Pts(T, k) == IF Fan(k) \/ Chance("pt", 40) THEN [j \in 1 .. Len(T.points) |-> [op |-> "point", p |-> T.points[j]]] ELSE <<>>
\* (scenes whose shapes are not much longer than they are apart)
RefMag == K0 \in {0, 2, 3, 5, 10} /\ Chance("refmag", 20)
GenC(T, more) == [op |-> "gen", refine |-> (K0 \in {2, 5, 10} /\ Chance("ref", 25)), area |-> AreaLim(T), angle |-> AngleLim, refmag |-> RefMag] @@ more
MeshC(T, k) == [op |-> "mesh", area |-> IF Fan(k) /\ Chance("huge", 60) THEN RoughArea(T) (.) 10 ELSE AreaLim(T), angle |-> IF Fan(k) THEN 0 ELSE AngleLim]
Sys == [op |-> "magsys"]
\* the same shape may carry several markers of its material
Twice2(T, mats, t) == IF Chance(<<t, "twice">>, 35) THEN LET m == Of(<<t, "tm">>, mats) IN
    <<[op |-> "region", p |-> T.marks[1], prop |-> m], [op |-> "region", p |-> <<T.marks[1][1], T.marks[1][2]>>, prop |-> m]>> ELSE <<>>
System(mats) == LET k == K0 T == One(k) IN
  IF Chance("mgm", 60) THEN <<New("mgm")>> \o DrawCmds(T, mats, "d") \o Pts(T, k) \o <<MeshC(T, k), Sys>>
  ELSE <<New("mag")>> \o DrawCmds(T, mats, "d") \o Pts(T, k) \o <<GenC(T, <<>>)>> \o (IF Chance("sys", 40) THEN <<Sys>> ELSE <<>>)
(* ---- open boundary ---- *)
Open == LET k == Of("ok", <<0, 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12>>)
            s == Of("sc", <<R(1), RQ(1, 8), RQ(1, 1000), R(100), RQ(1, 10), TenTo(4)>>) v == Of("omv", <<<<R(0), R(0)>>, <<R(10), R(-7)>>, <<R(300), R(20)>>, <<RQ(-3, 8), RQ(1, 4)>>, <<R(-50), R(-50)>>>>)
            T == Placed(Scene(k, "s"), s, Of("turn", Turns), <<s (.) v[1], s (.) v[2]>>)
            lim == RRound(RoughArea(T) (.) Of("olim", <<RQ(1, 8), RQ(1, 3), R(1), R(4), R(50), RQ(1, 12)>>))
            G(a) == [op |-> "gen", refine |-> FALSE, area |-> a, angle |-> AngleLim, refmag |-> (k \in {0, 2, 3, 5, 10} /\ Chance("refmag", 20))] IN
  <<New("mag")>> \o DrawCmds(T, IF Chance("mm", 50) THEN Magnets ELSE Plain, "d") \o Pts(T, k) \o <<G(lim)>> \o (IF Chance("again", 20) THEN <<G(RRound(lim (.) 2))>> ELSE <<>>)
(* ---- potential ---- *)
Straight(mu, t) == LET n == 2 + Pick(<<t, "n">>, 4) IN [J |-> R(0), M |-> Z2, mu |-> mu, bh |-> [j \in 1 .. n |-> LET h == (j - 1) * (100 + 50 * j) IN <<RRound(mu (.) h), R(h)>>]]
Curve(t) == LET a == R(1 + Pick(<<t, "a">>, 3)) IN [J |-> R(0), M |-> Z2, mu |-> Mu0, bh |-> <<<<R(0), R(0)>>, <<RQ(1, 2), 100 (.) a>>, <<R(1), 300 (.) a>>, <<RQ(3, 2), 2000 (.) a>>, <<R(2), 40000 (.) a>>, <<R(3), 800000 (.) a>>>>]
\* two slopes with the bend at a field of 10^-12
BentBH(t) == LET m1 == RRound(Mu0 (.) Of(<<t, "m1">>, <<R(1), R(2000), R(100)>>)) m2 == RRound(Mu0 (.) Of(<<t, "m2">>, <<R(700), R(5), R(40)>>)) b == TenTo(-12) B == TenTo(7) IN
  [J |-> R(0), M |-> Z2, mu |-> Mu0, bh |-> <<<<R(0), R(0)>>>> \o (IF Chance(<<t, "more">>, 50) THEN <<<<RRound(b (/) 2), RRound((b (/) 2) (/) m1)>>>> ELSE <<>>) \o <<<<b, RRound(b (/) m1)>>, <<B, RRound((b (/) m1) (+) ((B (-) b) (/) m2))>>>>]
Sources(t) == <<Stuff(TenTo(6), Z2, R(1)), Stuff((-2) (.) TenTo(5), Z2, R(1)), Stuff(R(0), <<TenTo(5), R(0)>>, R(1)), Stuff(TenTo(4), <<R(0), (-3) (.) TenTo(4)>>, R(3))>>
PMats == CASE Pick("pm", 6) = 0 -> Plain
           [] Pick("pm", 6) = 1 -> Sources(1) \o <<Stuff(R(0), Z2, R(1000)), AirM>>
           [] Pick("pm", 6) = 2 -> <<Sources(1)[1], Straight(RRound(Mu0 (.) 500), 1), Sources(1)[3], Straight(RRound(Mu0 (.) 20), 2)>>
           [] Pick("pm", 6) = 3 -> <<Sources(1)[1], Curve(1), Sources(1)[2], Curve(2), Sources(1)[3]>>
           [] Pick("pm", 6) = 5 -> <<Sources(1)[1], BentBH(1), Sources(1)[3], BentBH(2)>>
           [] Pick("pm", 6) = 4 -> IF Chance("z", 40) THEN <<AirM, Stuff(R(0), Z2, R(1000)), Straight(RRound(Mu0 (.) 500), 1)>> ELSE Sources(1) \o <<AirM>>
Neg2(v) == <<R(0) (-) v[1], R(0) (-) v[2]>>
Opposite(q) == TLCEval([j \in 1 .. Len(q) |-> IF q[j].op = "region" THEN [q[j] EXCEPT !.prop = [q[j].prop EXCEPT !.J = R(0) (-) q[j].prop.J, !.M = Neg2(q[j].prop.M)]] ELSE q[j]])
Potential == LET k == K0 T == One(k) mats == PMats q == DrawCmds(T, mats, "d") \o Pts(T, k) \o <<[GenC(T, <<>>) EXCEPT !.angle = Of("pang", <<10, 20, 28, 33>>)], [op |-> "solve"]>> IN
  <<New("mag")>> \o q \o (IF Chance("opp", 50) THEN <<New("mag")>> \o Opposite(q) ELSE <<>>)
(* ---- forces ---- *)
\* bodies around their own centres, about one unit in size
Bodies == <<Bx(-1, -1, 1, 1), Bx(-1, -2, 1, 2), I2(<<<<-1, -1>>, <<1, -1>>, <<0, 1>>>>), I2(<<<<-1, -1>>, <<1, -1>>, <<1, 0>>, <<0, 0>>, <<0, 1>>, <<-1, 1>>>>)>>
BodyAt(t, c) == LET b == IF Chance(<<t, "ring">>, 30) THEN Ring(Z2, R(1), 6 + Pick(<<t, "rn">>, 8), 0) ELSE Of(<<t, "b">>, Bodies) IN [k \in 1 .. Len(b) |-> PAdd(PMul(b[k], RQ(1, 2)), c)]
FStuff(t) == CASE Pick(<<t, "fs">>, 6) \in {0, 1, 2} -> Stuff(RRound(PickR(<<t, "J">>, 2, 9, 1) (.) (IF Chance(<<t, "neg">>, 50) THEN (-1) (.) TenTo(5) ELSE TenTo(5))), Z2, R(1))
               [] Pick(<<t, "fs">>, 6) = 3 -> Stuff(R(0), Z2, R(1000))
               [] Pick(<<t, "fs">>, 6) = 4 -> Stuff(R(0), <<TenTo(5), R(0)>>, R(1))
               [] OTHER -> Stuff(R(0), <<(-3) (.) TenTo(4), 5 (.) TenTo(4)>>, R(1))
Source == Stuff(4 (.) TenTo(5), Z2, R(1))
FCentres == <<Z2, P2(2 + Pick("fx", 2), Pick("fy", 3) - 1), P2(-1, 3 + Pick("fz", 2))>>
Stronger(q, f, v) == LET move(p) == PAdd(p, v) IN TLCEval([j \in 1 .. Len(q) |->
  CASE q[j].op = "region" -> [q[j] EXCEPT !.p = move(q[j].p), !.prop = [q[j].prop EXCEPT !.J = RRound(q[j].prop.J (.) f), !.M = <<RRound(q[j].prop.M[1] (.) f), RRound(q[j].prop.M[2] (.) f)>>]]
    [] q[j].op = "poly" -> [q[j] EXCEPT !.pts = [i \in 1 .. Len(q[j].pts) |-> move(q[j].pts[i])]]
    [] q[j].op = "stress" -> [q[j] EXCEPT !.p = move(q[j].p), !.c = move(q[j].c)]
    [] OTHER -> q[j]])
Force == LET n == 2 + Pick("nb", 2)
             boxed == Chance("boxed", 35)
             wires == Chance("wires", 40)
             shapes == [j \in 1 .. n |-> BodyAt(<<"b", j>>, FCentres[j])] \o (IF boxed THEN <<Bx(-3, -3, 6, 7)>> ELSE <<>>)
             marks == [j \in 1 .. n |-> InPoint(shapes[j])] \o (IF boxed THEN <<P2(5, 6)>> ELSE <<>>)
             s == Of("sc", <<R(1), RQ(1, 8), RQ(1, 128), R(1)>>) v == Of("fmv", <<Z2, P2(10, -7), P2(40, 25)>>)
             T == Placed([shapes |-> shapes, marks |-> marks, leaves |-> <<>>, points |-> <<>>], s, Of("turn", Turns), <<s (.) v[1], s (.) v[2]>>)
             raw(j) == IF j > n THEN AirM ELSE IF j = 2 THEN Source ELSE IF wires THEN Stuff(RRound(PickR(<<"wJ", j>>, 2, 9, 1) (.) (IF Chance(<<"wneg", j>>, 50) THEN (-1) (.) TenTo(5) ELSE TenTo(5))), Z2, R(1)) ELSE FStuff(<<"m", j>>)
             \* (currents as strong as the magnets whatever the size)
             prop(j) == LET m == raw(j) IN [m EXCEPT !.J = RRound(m.J (/) s)]
             lim == RRound((s (.) s) (.) Of("flim", <<RQ(1, 16), RQ(1, 12), RQ(1, 9)>>))
             c == Of("fc", <<T.marks[1], T.marks[2], T.shapes[1][1], <<RRound(T.marks[1][1] (+) (3 (.) s)), T.marks[1][2]>>>>)
             Ask(j) == [op |-> "stress", p |-> T.marks[j], c |-> c]
             new == [op |-> "new", kind |-> "mag", depth |-> Of("dp", <<R(1), RQ(1, 4), R(3)>>)]
             draw == [j \in 1 .. Len(T.shapes) |-> [op |-> "poly", how |-> "vec", pts |-> T.shapes[j]]]
                     \o [j \in 1 .. Len(T.marks) |-> [op |-> "region", p |-> T.marks[j], prop |-> prop(j)]]
                     \o <<[op |-> "gen", refine |-> FALSE, area |-> lim, angle |-> 30, refmag |-> FALSE], [op |-> "solve"]>>
             v2 == <<RRound(s (.) PickR("sx", -20, 20, 4)), RRound(s (.) PickR("sy", -20, 20, 4))>>
         IN <<new>> \o draw
            \o [j \in 1 .. n |-> Ask(j)]
            \o (CASE Pick("then", 6) \in {0, 1} -> <<new>> \o Stronger(draw \o [j \in 1 .. n |-> Ask(j)], Of("times", <<R(2), RQ(-1, 2), R(10), R(1)>>), v2)
                  [] Pick("then", 6) = 2 -> <<[op |-> "scaleB", k |-> Of("kb", <<R(2), R(-4), RQ(1, 1024)>>)], Ask(1), [op |-> "force", p |-> T.marks[1]]>>
                  [] Pick("then", 6) = 3 -> <<[op |-> "force", p |-> T.marks[1]], [op |-> "torque", p |-> T.marks[1], c |-> c], [op |-> "depth", v |-> Of("dp2", <<R(5), RQ(1, 8)>>)], Ask(1), Ask(2)>>
                  [] Pick("then", 6) = 4 -> <<[op |-> "setB", B |-> Z2], Ask(1), [op |-> "torque", p |-> T.marks[2], c |-> c]>>
                  [] OTHER -> <<[op |-> "setB", B |-> <<PickR("bx", -8, 8, 4), PickR("by", 1, 9, 8)>>], Ask(1), Ask(2), [op |-> "force", p |-> T.marks[1]]>>)
\* materials that differ in one respect only
Twins == LET m == MagM("twin") j == Of("twinj", <<R(0), R(3), TenTo(5)>>) base == Stuff(j, m, R(2)) IN
  <<base, [base EXCEPT !.M = <<R(0) (-) m[1], R(0) (-) m[2]>>], [base EXCEPT !.M = <<R(0) (-) m[2], m[1]>>], [base EXCEPT !.M = <<m[1], m[2] (+) (m[1] (.) RQ(1, 512))>>],
    [base EXCEPT !.J = j (+) RQ(1, 512)], [base EXCEPT !.mu = RRound(Mu0 (.) RQ(1025, 512))], [base EXCEPT !.bh = <<<<R(0), R(0)>>, <<R(1), RRound(R(1) (/) Mu0)>>>>]>>
Cmds == CASE Family = "system" -> System(IF Chance("twins", 15) THEN [j \in 1 .. Len(Twins) |-> [Twins[j] EXCEPT !.M = Z2]] ELSE Plain)
          [] Family = "magnet" -> System(IF Chance("twins", 30) THEN Twins ELSE Magnets)
          [] Family = "open" -> Open
          [] Family = "potential" -> Potential
          [] Family = "force" -> Force
Init == GenInit(0 .. Count - 1)
Next == ~fin /\ FinishWith(Family \o ToString(run), Cmds)
Spec == Init /\ [][Next]_gvars
=============================================================================
