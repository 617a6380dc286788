----------------------------- MODULE Gen_Binding -----------------------------
\* Scenarios for C28: Python sessions, wrong calls in between, and next to every right call the operations of the library it stands for.
EXTENDS Stacks, Binding
Fl(x) == [k |-> "float", v |-> R(x)]
In(i) == [k |-> "int", v |-> i]
St(s) == [k |-> "str", v |-> s]
No == [k |-> "none", v |-> 0]
Li(q) == [k |-> "list", v |-> q]
Tu(q) == [k |-> "tuple", v |-> q]
Sy(n) == [k |-> "system", v |-> n]
\* whole numbers may be ints
NumA(x, t) == IF RFloor(x) \doteq x /\ Chance(<<t, "int">>, 60) THEN In(RFloor(x)) ELSE Fl(x)
PairA(p, t) == Li(<<NumA(p[1], <<t, "x">>), NumA(p[2], <<t, "y">>)>>)
Call(f, x) == [f |-> f, args |-> x]
\* calls for the commands of the generators
ToCall(c, t) ==
  CASE c.op = "rect" -> Call("draw_rectangle", <<PairA(c.p, <<t, 1>>), PairA(c.q, <<t, 2>>), In(c.layer)>>)
    [] c.op = "poly" -> Call("draw_polygon", <<Li([i \in 1 .. Len(c.pts) |-> PairA(c.pts[i], <<t, i>>)]), In(c.layer)>>)
    [] c.op = "region" -> Call("draw_region", <<PairA(c.p, <<t, 1>>), NumA(c.prop, <<t, 2>>), In(c.layer)>>)
    [] c.op = "connect" -> Call("add_interconnection", <<PairA(c.p1, <<t, 1>>), PairA(c.p2, <<t, 2>>), In(c.l1), In(c.l2), NumA(c.R, <<t, 3>>)>>)
    [] c.op = "setv" -> Call("set_voltage", <<Sy("s"), PairA(c.p, <<t, 1>>), NumA(c.V, <<t, 2>>), In(c.layer)>>)
DrawP(n) == Cat([l \in 1 .. n |-> OnLayer(DrawCmds(LT(l), Pal, <<"d", l>>), l)])
GenArgs(n) == LET a == Fl(RRound(RoughArea(LT(1)) (/) R(2 + Pick("div", 12)))) g == IF Chance("fang", 30) THEN Fl(RQ(41, 2)) ELSE In(Of("ang", <<0, 10, 20, 28, 33>>))
                  b == [k |-> "bool", v |-> (\A l \in 1 .. n : LK(l) = 2) /\ Chance("ref", 40)] IN
  CASE Pick("ga", 8) = 0 -> <<b>> [] Pick("ga", 8) = 1 -> <<b, In(2)>> [] Pick("ga", 8) \in {2, 3} -> <<b, a>>
    [] Pick("ga", 8) = 4 /\ (\A l \in 1 .. n : LK(l) = 2) -> <<>> [] OTHER -> <<b, a, g>>
NewC(n) == Call("new", <<In(n), Li([l \in 1 .. n |-> NumA(Of(<<"dv", l>>, Depths), <<"dep", l>>)])>>)
\* a layer may stay empty, or have a region less: the library refuses that, and so must the interface
Lost(q, l) == CASE Pick("lose", 8) = 0 -> SelectSeq(q, LAMBDA c : c.layer # l - 1)
                [] Pick("lose", 8) = 1 -> SelectSeq(q, LAMBDA c : ~(c.layer = l - 1 /\ c.op = "region"))
                [] OTHER -> q
Session == LET n == 1 + Pick("nl4", 4) draw == Lost(DrawP(n), 1 + Pick("lol", n)) conn == Again(Loose(n, Pick("nlo", 4))) \o (IF Chance("chain", 60) THEN Chain(n) ELSE <<>>) \o SelfLoop(n) sets == Sets(n) gen == Call("generate_system", GenArgs(n)) whole == \A l \in 1 .. n : \E j \in 1 .. Len(draw) : draw[j].op = "region" /\ draw[j].layer = l - 1 IN
  <<NewC(n)>> \o [j \in 1 .. Len(draw) |-> ToCall(draw[j], <<"a", j>>)] \o [j \in 1 .. Len(conn) |-> ToCall(conn[j], <<"c", j>>)] \o <<gen>>
  \o (IF Chance("twice", 15) THEN <<gen>> ELSE <<>>)
  \o (IF ~whole THEN <<>> ELSE [j \in 1 .. Len(sets) |-> ToCall(sets[j], <<"v", j>>)] \o <<Call("solve", <<Sy("s")>>)>>)
  \o (IF whole /\ Chance("more", 30) THEN <<ToCall(SetL(1, 2, R(3)), "again"), Call("solve", <<Sy("s")>>)>> ELSE <<>>)
\* calls that are not right
Put(x, j, a) == TLCEval([i \in 1 .. Len(x) |-> IF i = j THEN a ELSE x[i]])
Inside(x, j, f(_)) == Put(x, j, f(x[j]))
Short(a) == IF a.k = "list" /\ a.v # <<>> THEN Li(SubSeq(a.v, 1, Len(a.v) - 1)) ELSE No
Long(a) == IF a.k = "list" /\ a.v # <<>> THEN Li(Append(a.v, a.v[1])) ELSE No
Tupled(a) == IF a.k = "list" THEN Tu(a.v) ELSE St("x")
Worded(a) == IF a.k = "list" /\ a.v # <<>> THEN Li(Put(a.v, Len(a.v), St("2"))) ELSE St("1")
\* (an outline with another corner may be right: only its corners are changed)
Deeper(a, f(_)) == IF a.k = "list" /\ a.v # <<>> /\ a.v[1].k = "list" THEN Li(Put(a.v, Len(a.v), f(a.v[Len(a.v)]))) ELSE f(a)
LayerArg(f) == CASE f = "draw_rectangle" -> {3} [] f = "draw_polygon" -> {2} [] f = "draw_region" -> {3} [] f = "add_interconnection" -> {3, 4} [] f = "set_voltage" -> {4} [] OTHER -> {}
Spoilt(c, n, t) == LET x == c.args j == 1 + Pick(<<t, "j">>, IF x = <<>> THEN 1 ELSE Len(x)) lay == {k \in LayerArg(c.f) : Pick(<<t, "l", k>>, 2) = 0} IN
  IF x = <<>> THEN Call(c.f, <<In(1), In(1), In(1), In(1)>>)
  ELSE CASE Pick(<<t, "how">>, 11) = 0 -> Call(c.f, SubSeq(x, 1, Len(x) - 1))
         [] Pick(<<t, "how">>, 11) = 1 -> Call(c.f, x \o <<In(1), In(2), In(3)>>)
         [] Pick(<<t, "how">>, 11) = 2 -> Call(c.f, Put(x, j, St("word")))
         [] Pick(<<t, "how">>, 11) = 3 -> Call(c.f, Put(x, j, No))
         [] Pick(<<t, "how">>, 11) = 4 -> Call(c.f, Put(x, j, Deeper(x[j], Short)))
         [] Pick(<<t, "how">>, 11) = 5 -> Call(c.f, Put(x, j, Deeper(x[j], Long)))
         [] Pick(<<t, "how">>, 11) = 6 -> Call(c.f, Put(x, j, Deeper(x[j], Worded)))
         [] Pick(<<t, "how">>, 11) = 7 -> Call(c.f, Put(x, j, Deeper(x[j], Tupled)))
         [] Pick(<<t, "how">>, 11) = 8 -> Call(c.f, Put(x, j, Li(<<>>)))
         [] Pick(<<t, "how">>, 11) = 9 -> IF lay = {} THEN Call(c.f, Put(x, j, Sy("bare"))) ELSE Call(c.f, Put(x, CHOOSE k \in lay : TRUE, Of(<<t, "lv">>, <<In(n), In(n + 3), In(-1), In(2147483647), Fl(R(0))>>)))
         [] OTHER -> Call(c.f, <<>>)
Py(c, who) == c @@ [o |-> "py", n |-> who]
\* systems under the name of their session
Named(c, who) == [c EXCEPT !.args = [i \in 1 .. Len(c.args) |-> IF c.args[i].k = "system" /\ c.args[i].v = "s" THEN Sy(who) ELSE c.args[i]]]
\* the operations done directly
Direct(c, who) == LET q == Lib(c.f, c.args) IN [i \in 1 .. Len(q) |-> q[i] @@ [o |-> "lib-" \o who]]
\* the events of a session of calls: right ones with their operations, others as they are
RECURSIVE Told(_, _, _, _, _)
Told(q, who, n, have, k) ==
  IF q = <<>> THEN <<>>
  ELSE LET c == Named(q[1], who)
           bad == IF Chance(<<who, "bad", k>>, 45) THEN <<Named(Spoilt(q[1], n, <<who, "sp", k>>), who)>> ELSE <<>>
           Ev1(d, h) == <<Py(d, who)>> \o (IF Right(d.f, d.args, who, n, h) THEN Direct(d, who) ELSE <<>>)
           ok == Right(c.f, c.args, who, n, have)
           n2 == IF c.f = "new" THEN c.args[1].v ELSE n
           \* (a spoilt call is not kept when it happens to be right)
           bads == IF bad = <<>> \/ Right(bad[1].f, bad[1].args, who, n, have) \/ (bad[1].f = "new" /\ k > 1) THEN <<>> ELSE <<Py(bad[1], who)>>
       IN <<<<bads, Ev1(c, have)>>>> \o Told(Tail(q), who, n2, have \/ c.f = "generate_system", k + 1)
Bare == [f |-> "System", args |-> <<>>, o |-> "py", n |-> "bare"]
RECURSIVE Weave2(_, _, _)
Weave2(a, b, k) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE IF Pick(<<"weave", k>>, 2) = 0 THEN <<a[1]>> \o Weave2(Tail(a), b, k + 1) ELSE <<b[1]>> \o Weave2(a, Tail(b), k + 1)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>> ELSE q[1][1] \o q[1][2] \o Join(Tail(q))
Cmds(S) == <<Bare>> \o Join(IF Chance("two", 25) THEN Weave2(Told(S, "s", 0, FALSE, 1), Told(S, "t", 0, FALSE, 1), 0) ELSE Told(S, "s", 0, FALSE, 1))
Init == GenInit(0 .. Count - 1)
Next == ~fin /\ \E S \in {Session} : FinishWith(Family \o ToString(run), Cmds(S))
Spec == Init /\ [][Next]_gvars
=============================================================================
