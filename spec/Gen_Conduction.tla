---------------------------- MODULE Gen_Conduction ----------------------------
\* Scenarios for C17 (family "assemble"), C18 ("solve"), C19 ("volt"), C20 ("layers") and C21 ("power").
EXTENDS Stacks
T0 == LET v == Of("mv", Moves) s == Of("sc", Scales) IN <<s, Of("turn", Turns), <<s (.) v[1], s (.) v[2]>>>>
AreaLim(T) == RRound(RoughArea(T) (/) R(4 + Pick("div", 40)))

(* ---- one layer ---- *)
K0 == IF run % 26 = 17 THEN 14 ELSE run % 13
One(k) == LET t == T0 IN Placed(Scene(k, "s"), t[1], t[2], t[3])
\* of micrometres
Micro(k) == Placed(Scene(k, "s"), RQ(1, 1000000), Of("turn", Turns), P2(0, 0))
Fan(k) == k \in {6, 11}
Pts(T, k) == IF Fan(k) \/ Chance("pt", 40) THEN [j \in 1 .. Len(T.points) |-> [op |-> "point", p |-> T.points[j]]] ELSE <<>>
LimOf(T, k) == IF k = 13 THEN RRound(RoughArea(T) (/) 700) ELSE IF Fan(k) /\ Chance("huge", 80) THEN RoughArea(T) (.) 10 ELSE AreaLim(T)
AngOf(k) == IF Fan(k) THEN 0 ELSE AngleLim
NewCur(kind) == IF Chance("dep", 75) THEN [op |-> "new", kind |-> kind, depth |-> Of("dv", Depths)] ELSE [op |-> "new", kind |-> kind]
Draw1(T, k) == DrawCmds(T, Pal, "d") \o Pts(T, k)
Gen1(T, k) == [op |-> "gen", refine |-> (k \in {2, 5, 10} /\ Chance("ref", 25)), area |-> LimOf(T, k), angle |-> AngOf(k)]
Assemble == LET k == K0 T == IF run % 9 = 4 /\ ~Fan(k) THEN Micro(k) ELSE One(k) IN
  IF Chance("cdm", 40) THEN <<NewCur("cdm")>> \o Draw1(T, k) \o <<[op |-> "mesh", area |-> LimOf(T, k), angle |-> AngOf(k)], [op |-> "fem"], [op |-> "cot"]>>
  ELSE <<NewCur("cur")>> \o Draw1(T, k) \o <<Gen1(T, k)>> \o (IF Chance("cot", 50) THEN <<[op |-> "cot"], [op |-> "fem"]>> ELSE <<>>)
       \o (IF Chance("again", 25) THEN <<[op |-> "point", p |-> T.marks[1]], [Gen1(T, k) EXCEPT !.area = LimOf(T, k) (/) 2]>> ELSE <<>>)
\* positions: corners, markers, points in and around the shapes
Where(T, t) == IF Chance(<<t, "far">>, 8) THEN <<Of(<<t, "fx">>, <<R(1000000), R(-50000), TenTo(9)>>), Of(<<t, "fy">>, <<R(0), R(70000), TenTo(8)>>)>> ELSE LET o == Of(<<t, "sh">>, T.shapes) IN
  CASE Pick(<<t, "w">>, 4) = 0 -> Of(<<t, "c">>, T.marks)
    [] Pick(<<t, "w">>, 4) = 1 -> LET a == Of(<<t, "a">>, o) b == Of(<<t, "b">>, o) l == PickR(<<t, "l">>, -4, 12, 8) IN <<RRound(a[1] (+) (l (.) (b[1] (-) a[1]))), RRound(a[2] (+) (l (.) (b[2] (-) a[2])))>>
    [] OTHER -> Of(<<t, "k">>, o)
Volts(t) == CASE Pick(<<t, "m">>, 5) = 0 -> R(0) [] Pick(<<t, "m">>, 5) = 1 -> PickR(<<t, "v">>, -9, 9, 2) (.) 1000 [] Pick(<<t, "m">>, 5) = 2 -> PickR(<<t, "v">>, -9, 9, 1) (.) TenTo(-3) [] OTHER -> PickR(<<t, "v">>, -9, 9, 4)
SetC(p, v) == [op |-> "setv", p |-> p, V |-> v]
\* one per shape, then more: corners of the shapes only, so that different values go to different vertices
CornerSets(T) == [j \in 1 .. Len(T.shapes) |-> SetC(T.shapes[j][1], Distinct(j))] \o (IF Chance("more", 70) THEN <<SetC(T.shapes[1][3], Distinct(Len(T.shapes) + 1))>> ELSE <<>>)
NoDup(q) == LET RECURSIVE Go(_) Go(k) == IF k = 0 THEN <<>> ELSE LET r == Go(k - 1) IN IF \E j \in 1 .. Len(r) : PEq(r[j].p, q[k].p) THEN r ELSE Append(r, q[k]) IN Go(Len(q))
Solve1 == LET k == Of("k", <<0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 10, 11, 12, 13>>) T == One(k) IN
  <<NewCur("cur")>> \o Draw1(T, k) \o <<Gen1(T, k)>> \o NoDup(CornerSets(T)) \o <<[op |-> "solve"]>>
  \o (IF Chance("then", 30) THEN <<SetC(T.shapes[1][2], R(3)), [op |-> "solve"]>> ELSE <<>>)
Volt1 == LET k == K0 micro == run % 6 = 2 /\ ~Fan(k) T == IF micro THEN Micro(k) ELSE One(k) n == (IF micro THEN 5 ELSE 1) + Pick("nv", 5) IN
  <<NewCur("cur")>> \o Draw1(T, k) \o <<Gen1(T, k)>> \o [j \in 1 .. n |-> SetC(Where(T, <<"w", j>>), Volts(<<"v", j>>))]

(* ---- several layers ---- *)
SolveM == LET n == NL IN <<NewMul(n)>> \o DrawL(n) \o Again(ConnsFor(n)) \o <<GenL(n, <<>>)>> \o Sets(n) \o <<[op |-> "solve"]>>
VoltM == LET n == NL m == 1 + Pick("nv", 5) IN <<NewMul(n)>> \o DrawL(n) \o ConnsFor(n) \o <<GenL(n, <<>>)>>
  \o [j \in 1 .. m |-> LET l == 1 + Pick(<<"vl", j>>, n) IN [op |-> "setv", p |-> IF Chance(<<"tp", j>>, 50) THEN LTaps(l)[RandTap(l, <<"vt", j>>)] ELSE Where(LT(l), <<"w", j>>), V |-> Volts(<<"v", j>>), layer |-> l - 1]]
Layers == LET n == IF run % 12 = 5 THEN 5 + Pick("nl4", 3) ELSE 1 + Pick("nl4", 4) IN <<NewMul(n)>> \o DrawL(n) \o Again(IF run % 3 = 0 THEN Loose(n, Pick("nlo", 4)) ELSE LooseBy(n, 1 + Pick("nlo", 3))) \o SelfLoop(n) \o <<GenL(n, <<>>)>>
  \o (IF Chance("regen", 15) THEN <<RandConn(n, "rg"), GenL(n, <<>>)>> ELSE <<>>)
Power == LET n == NL IN <<NewMul(n)>> \o DrawL(n) \o Again(ConnsFor(n)) \o <<GenL(n, <<>>), [op |-> "power", rnd |-> Pick("rv", 10000)]>>
  \o (IF Chance("solve", 60) THEN Sets(n) \o <<[op |-> "solve"], [op |-> "power"]>> ELSE <<>>)
Cmds == CASE Family = "assemble" -> Assemble
          [] Family = "solve" -> IF run % 2 = 0 THEN Solve1 ELSE SolveM
          [] Family = "volt" -> IF run % 2 = 0 THEN Volt1 ELSE VoltM
          [] Family = "layers" -> Layers
          [] Family = "power" -> Power
Init == GenInit(0 .. Count - 1)
Next == ~fin /\ FinishWith(Family \o ToString(run), Cmds)
Spec == Init /\ [][Next]_gvars
=============================================================================
