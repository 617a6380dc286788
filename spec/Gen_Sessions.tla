----------------------------- MODULE Gen_Sessions -----------------------------
\* Scenarios for C27: programs of several simulations, first one of them alone, then the same one again in between
\* operations of others, failing ones included.
EXTENDS Scenes
Mu0 == RRound((4 (.) RPi) (.) TenTo(-7))
Z2 == <<R(0), R(0)>>
Pal == <<R(1), R(2), RQ(1, 2), R(5)>>
Stuff(j, m, k) == [J |-> j, M |-> m, mu |-> RRound(Mu0 (.) k), bh |-> <<>>]
MPal == <<Stuff(TenTo(5), Z2, R(1)), Stuff(R(0), Z2, R(1000)), Stuff(R(0), <<TenTo(5), R(3)>>, R(1)), Stuff(R(-4), Z2, R(1)),
          [J |-> R(0), M |-> Z2, mu |-> Mu0, bh |-> <<<<R(0), R(0)>>, <<R(1), R(500)>>, <<R(2), R(90000)>>, <<R(9), R(9000000)>>>>]>>
Ks == <<0, 1, 2, 4, 5, 8, 9, 10, 12>>
T(t) == LET v == Of(<<t, "mv">>, Moves) s == Of(<<t, "sc">>, <<R(1), RQ(1, 8), R(1)>>) IN Placed(Scene(Of(<<t, "k">>, Ks), <<t, "s">>), s, Of(<<t, "tn">>, Turns), <<s (.) v[1], s (.) v[2]>>)
Lim(S, t) == RRound(RoughArea(S) (/) R(3 + Pick(<<t, "div">>, 9)))
Ang(t) == Of(<<t, "ang">>, <<10, 20, 28, 33>>)
Fine(t) == Of(<<t, "k">>, Ks) \in {2, 5, 10}
GenC(S, t) == [op |-> "gen", refine |-> (Fine(t) /\ Chance(<<t, "ref">>, 60)), area |-> Lim(S, t), angle |-> Ang(t)]
Far == <<R(1000000), R(1000000)>>
\* operations that fail
Wrong(S, t) == CASE Pick(<<t, "wr">>, 6) \in {0, 1, 2} -> <<>>
                 [] Pick(<<t, "wr">>, 6) = 3 -> <<[op |-> "bary", p |-> Far]>>
                 [] Pick(<<t, "wr">>, 6) = 4 -> <<[op |-> "polyprop", pts |-> <<Far, S.marks[1], S.shapes[1][1]>>]>>
                 [] OTHER -> <<[op |-> "area", p |-> Far], [op |-> "mass", p |-> Far, rho |-> R(2)]>>
Cur(t) == LET S == T(t) IN
  <<[op |-> "new", kind |-> "cur", depth |-> Of(<<t, "dp">>, <<R(1), RQ(1, 4)>>)]>> \o DrawCmds(S, Pal, <<t, "d">>) \o <<GenC(S, t)>> \o Wrong(S, t)
  \o <<[op |-> "setv", p |-> S.shapes[1][1], V |-> R(2)], [op |-> "setv", p |-> S.shapes[1][3], V |-> R(-1)], [op |-> "solve"], [op |-> "inertia", p |-> S.leaves[1], c |-> Z2, rho |-> R(1)]>>
  \o (IF Chance(<<t, "again">>, 30) THEN <<[op |-> "point", p |-> S.marks[1]], [GenC(S, t) EXCEPT !.area = Lim(S, t) (/) 2]>> ELSE <<>>)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
OnLayer(q, l) == [j \in 1 .. Len(q) |-> q[j] @@ [layer |-> l - 1]]
Mul(t) == LET S == <<T(<<t, 1>>), T(<<t, 2>>)>> IN
  <<[op |-> "new", kind |-> "mul", n |-> 2, depths |-> <<R(1), RQ(1, 2)>>]>> \o Cat([l \in 1 .. 2 |-> OnLayer(DrawCmds(S[l], Pal, <<t, "d", l>>), l)])
  \o <<[op |-> "connect", p1 |-> S[1].marks[1], p2 |-> S[2].marks[1], l1 |-> 0, l2 |-> 1, R |-> R(3)], [GenC(S[1], <<t, 1>>) EXCEPT !.refine = @ /\ Fine(<<t, 2>>)]>>
  \o <<[op |-> "setv", p |-> S[1].shapes[1][1], V |-> R(2), layer |-> 0], [op |-> "setv", p |-> S[2].shapes[1][3], V |-> R(-1), layer |-> 1], [op |-> "solve"], [op |-> "power"]>>
Mag(t) == LET S == T(t) IN
  <<[op |-> "new", kind |-> "mag", depth |-> Of(<<t, "dp">>, <<R(1), RQ(1, 4)>>)]>> \o DrawCmds(S, MPal, <<t, "d">>) \o <<GenC(S, t) @@ [refmag |-> FALSE]>> \o Wrong(S, t) \o <<[op |-> "solve"]>>
  \o (IF Chance(<<t, "st">>, 50) THEN <<[op |-> "stress", p |-> S.leaves[1], c |-> Z2]>> ELSE <<>>)
Good(t) == CASE Pick(<<t, "kind">>, 5) \in {0, 1} -> Cur(t) [] Pick(<<t, "kind">>, 5) = 2 -> Mul(t) [] OTHER -> Mag(t)
NewMesh == [op |-> "new", kind |-> "cdm"]
B(a, b, c, e) == [op |-> "rect", p |-> P2(a, b), q |-> P2(c, e)]
Mark(p, m) == [op |-> "region", p |-> p, prop |-> m]
MeshC == [op |-> "mesh", area |-> R(1), angle |-> 20]
Bad(t) == CASE Pick(<<t, "bad">>, 10) = 0 -> <<NewMesh, MeshC>>
            \* refused by the mesher: two corners, corners on a line
            [] Pick(<<t, "bad">>, 10) \in {7, 8} -> <<NewMesh, [op |-> "poly", how |-> "vec", pts |-> I2(<<<<1, 1>>, <<6, 2>>>>)], Mark(<<RQ(1, 2), RQ(1, 2)>>, R(1)), MeshC>>
            [] Pick(<<t, "bad">>, 10) = 9 -> <<NewMesh, Mark(Z2, R(3)), MeshC, [op |-> "point", p |-> Z2], [op |-> "point", p |-> P2(1, 1)], MeshC>>
            [] Pick(<<t, "bad">>, 10) = 1 -> <<NewMesh, B(0, 0, 2, 2), B(1, 1, 3, 3), Mark(<<RQ(1, 2), RQ(1, 2)>>, R(1)), MeshC>>
            [] Pick(<<t, "bad">>, 10) = 2 -> <<NewMesh, [op |-> "point", p |-> Z2], [op |-> "point", p |-> P2(1, 1)], [op |-> "point", p |-> P2(2, 2)], Mark(P2(1, 1), R(1)), MeshC>>
            [] Pick(<<t, "bad">>, 10) = 3 -> <<[op |-> "new", kind |-> "mag"], B(0, 0, 2, 2), Mark(P2(1, 1), [Stuff(R(1), Z2, R(1)) EXCEPT !.bh = <<<<R(0), R(0)>>>>]), [op |-> "gen", refine |-> FALSE, area |-> R(1), angle |-> 20, refmag |-> FALSE], [op |-> "solve"]>>
            [] Pick(<<t, "bad">>, 10) = 4 -> <<[op |-> "new", kind |-> "mul", n |-> 3, depths |-> <<R(1)>>]>>
            [] Pick(<<t, "bad">>, 10) = 5 -> <<NewMesh, B(0, 0, 4, 4), [op |-> "poly", how |-> "vec", pts |-> I2(<<<<1, 1>>, <<6, 2>>, <<1, 3>>>>)], Mark(<<RQ(1, 2), RQ(1, 2)>>, R(1)), MeshC>>
            [] OTHER -> <<[op |-> "new", kind |-> "mag"], B(0, 0, 2, 2), [op |-> "bary", p |-> Far], [op |-> "regionid", prop |-> MPal[1]]>>
\* a program like q: other voltages, other materials, or everything half as large
Half(p) == <<p[1] (/) 2, p[2] (/) 2>>
Halved(c) == TLCEval([x \in DOMAIN c |-> CASE x \in {"p", "q", "c", "p1", "p2"} -> Half(c[x]) [] x = "pts" -> [k \in 1 .. Len(c.pts) |-> Half(c.pts[k])] [] x = "area" -> c.area (/) 4 [] OTHER -> c[x]])
OtherV(c) == IF c.op = "setv" THEN [c EXCEPT !.V = (@ (.) 3) (+) 1] ELSE c
OtherM(c) == IF c.op # "region" THEN c ELSE IF DOMAIN c.prop = {"J", "M", "mu", "bh"} THEN [c EXCEPT !.prop.J = (@ (.) 2) (+) 5] ELSE [c EXCEPT !.prop = @ (.) 3]
MagQ(q) == q[1].op = "new" /\ q[1].kind = "mag"
Like(q, t) == TLCEval([j \in 1 .. Len(q) |-> CASE Pick(<<t, "like">>, 3) = 0 -> Halved(q[j]) [] Pick(<<t, "like">>, 3) = 1 -> IF MagQ(q) THEN OtherM(q[j]) ELSE OtherV(q[j])
                                           [] OTHER -> IF q[j].op = "region" /\ ~MagQ(q) THEN [q[j] EXCEPT !.prop = @ (.) 3] ELSE IF MagQ(q) THEN OtherM(q[j]) ELSE q[j]])
As(q, o) == [j \in 1 .. Len(q) |-> q[j] @@ [o |-> o]]
SetToSeq(S) == LET RECURSIVE Go(_, _) Go(q, s) == IF s = {} THEN q ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y IN Go(Append(q, x), s \ {x}) IN Go(<<>>, S)
\* in a process of its own
Apart(q) == [j \in 1 .. Len(q) |-> q[j] @@ [proc |-> 1]]
\* a shuffle of the programs: at every step one of those with operations left
RECURSIVE Weave(_, _)
Weave(qs, n) == LET left == {k \in 1 .. Len(qs) : qs[k] # <<>>} IN
  IF left = {} THEN <<>>
  ELSE LET s == SetToSeq(left) k == s[1 + Pick(<<"weave", n>>, Len(s))] IN <<qs[k][1]>> \o Weave([qs EXCEPT ![k] = Tail(qs[k])], n + 1)
Dirty(t) == [op |-> "dirty", b |-> Pick(<<t, "byte">>, 256), n |-> 50 + Pick(<<t, "n">>, 400), o |-> "dirt"]
Del(o) == [op |-> "del", o |-> o]
Cmds(A, X) == LET nBad == Pick("nbad", 3)
            bads == [j \in 1 .. nBad |-> As(Bad(<<"b", j>>), "bad" \o ToString(j))]
            second == <<Dirty(1)>> \o As(A, "c") \o <<Del("c")>>
            third == IF Chance("third", 50) THEN <<Dirty(2)>> \o As(A, "d") ELSE <<>>
            other == As(X, "x") \o (IF Chance("delx", 50) THEN <<Del("x")>> ELSE <<>>)
            alone == IF Chance("alone", 75) THEN Apart(As(A, "p")) ELSE <<>>
            first == CASE Pick("first", 4) \in {0, 2} -> other  \* others before the first run
                       [] Pick("first", 4) = 1 -> IF nBad = 0 THEN <<>> ELSE bads[1]
                       [] OTHER -> <<>>
  IN alone \o first \o As(A, "a") \o (IF Chance("dela", 40) THEN <<Del("a")>> ELSE <<>>)
     \o Weave(<<second, third, IF Pick("first", 4) \in {0, 2} THEN As(X, "y") ELSE other>> \o bads, 0)
Init == GenInit(0 .. Count - 1)
Next == ~fin /\ \E A \in {Good("A")} : \E X \in {IF Chance("like", 55) THEN Like(A, "L") ELSE Good("X")} : FinishWith(Family \o ToString(run), Cmds(A, X))
Spec == Init /\ [][Next]_gvars
=============================================================================
