---------------------------- MODULE Gen_Geometry ----------------------------
\* Scenarios for C10 ("poly": containment and transformations of polygons; "lines": segments and vectors) and C11 ("circles").
EXTENDS Shapes
vars == gvars
G(c) == c @@ [g |-> "geo"]
PolyCmds ==
  LET b == Outline("p") s == Of("s", Scales) v == Of("v", Moves) P == MapAll(s, v, b)
      b2 == Outline("p2")
      inner == Of("k2", <<RQ(1, 4), RQ(1, 2), R(1), RQ(3, 4)>>)
      off == <<RQ(Pick("ox", 9) - 2, 2), RQ(Pick("oy", 9) - 2, 2)>>
      \* another outline: an arbitrary one, or one spanned by corners of the first (which may leave the first through a notch)
      c == [k \in 1 .. 3 |-> 1 + Pick(<<"c", k>>, Len(b))]
      hull == LET f == 1 + Pick("hf", Len(b)) w(k) == b[1 + ((f + k - 2) % Len(b))] IN IF Len(b) > 4 /\ Chance("h4", 50) THEN <<w(1), w(2), w(3), w(4)>> ELSE <<w(1), w(2), w(3)>>
      B2 == IF Chance("span", 45) THEN hull ELSE [k \in 1 .. Len(b2) |-> PAdd(PMul(b2[k], inner), off)]
      Q == MapAll(s, v, B2)
      xs(t) == b[1 + Pick(<<"x", t>>, Len(b))][1] (+) Of(<<"dx", t>>, <<R(0), R(0), RQ(1, 4), RQ(-1, 8), RQ(1, 2)>>)
      ys(t) == b[1 + Pick(<<"y", t>>, Len(b))][2] (+) Of(<<"dy", t>>, <<R(0), R(0), RQ(1, 4), RQ(-1, 8), RQ(-1, 2)>>)
      onb(t) == LET k == 1 + Pick(<<"e", t>>, Len(b)) u == Of(<<"u", t>>, <<R(0), RQ(1, 2), RQ(1, 4), RQ(7, 8)>>) IN PAdd(b[k], PMul(PSub(b[Nxt(k, Len(b))], b[k]), u))
      qs == TLCEval([t \in 1 .. 40 |-> Map(s, v, IF t % 3 = 0 THEN onb(t) ELSE <<xs(t), ys(t)>>)])
      nudge == Of("nudge", <<R(0), TenTo(-10), RQ(1, 1000)>>)
      \* triangles whose corners are near corners of the outline, on its inner side: a side may pass through notches
      ear(t) == LET k == 1 + Pick(<<"ek", t>>, Len(b)) f == 1 + ((k + Len(b) - 2) % Len(b)) g == Nxt(k, Len(b)) w == Of(<<"ew", t>>, <<RQ(1, 3), RQ(1, 8), RQ(1, 4)>>)
                    e == PAdd(b[k], PMul(PAdd(PSub(b[f], b[k]), PSub(b[g], b[k])), w)) IN
                IF Interior(b, e) THEN e ELSE PAdd(b[k], PMul(PAdd(PSub(b[f], b[k]), PSub(b[g], b[k])), RQ(-1, 8)))
      bars == TLCEval([t \in 1 .. 14 |-> MapAll(s, v, <<ear(<<t, 1>>), ear(<<t, 2>>), ear(<<t, 3>>)>>)])
      P3 == IF nudge \doteq 0 THEN P ELSE [P EXCEPT ![1 + Pick("nk", Len(P))] = <<@[1] (+) nudge, @[2]>>] IN
  <<G([op |-> "contains", poly |-> P, q |-> qs]),
    G([op |-> "containsb", poly |-> P, q |-> qs, eps |-> Of("eps", <<RQ(1, 16), RQ(1, 3), TenTo(-6), R(2)>>) (.) s]),
    G([op |-> "polyxf", poly |-> P, v |-> Of("xv", Moves), t |-> PickR("ang", -40, 40, 8)]),
    G([op |-> "polyeq", poly |-> P, q |-> TLCEval([k \in 1 .. Len(P3) |-> <<RRound(P3[k][1]), P3[k][2]>>])]),
    G([op |-> "polyeq", poly |-> P, q |-> Of("pe", <<From(P, 1), Reversed(P), SubSeq(P, 1, Len(P) - 1)>>)])>>
  \o (IF Len(Q) >= 3 /\ Simple(Q) THEN <<G([op |-> "polyin", poly |-> P, q |-> Q]), G([op |-> "polyin", poly |-> Q, q |-> P])>> ELSE <<>>)
  \o LET ok == KeepIdx([t \in 1 .. 14 |-> t], {t \in 1 .. 14 : Simple(bars[t])}) IN [t \in 1 .. Len(ok) |-> G([op |-> "polyin", poly |-> P, q |-> bars[ok[t]]])]
  \o <<G([op |-> "polyin", poly |-> P, q |-> P])>>

\* four points on a small grid, moved and scaled: touching, overlapping, crossing, apart
LinesCmds ==
  LET s == Of("s", <<R(1), RQ(1, 8), R(64), RQ(1, 1024)>>) v == Of("v", <<<<R(0), R(0)>>, <<R(16), R(-32)>>, <<RQ(1, 2), RQ(3, 4)>>>>)
      p(t) == Map(s, v, <<R(Pick(<<"px", t>>, 5)), R(Pick(<<"py", t>>, 5))>>)
      qd == TLCEval([t \in 1 .. 60 |-> <<p(<<t, 1>>), p(<<t, 2>>), p(<<t, 3>>), p(<<t, 4>>)>>])
      keep == KeepIdx([t \in 1 .. 60 |-> t], {t \in 1 .. 60 : ~PEq(qd[t][1], qd[t][2]) /\ ~PEq(qd[t][3], qd[t][4])})
      sq == Of("sq", Scales)
      r(t) == <<RRound(sq (.) PickR(<<"rx", t>>, -40, 40, 7)), RRound(sq (.) PickR(<<"ry", t>>, -40, 40, 7))>>
      ds == TLCEval([t \in 1 .. 12 |-> <<r(<<t, "p">>), r(<<t, "a">>), IF t % 6 = 0 THEN r(<<t, "a">>) ELSE r(<<t, "b">>)>>])
      vc(t) == G([op |-> "vecs", a |-> r(<<t, 1>>), b |-> r(<<t, 2>>), p |-> r(<<t, 3>>), t |-> RRound(PickR(<<"t", t>>, -24, 24, 5))]) IN
  <<G([op |-> "segs", q |-> TLCEval([k \in 1 .. Len(keep) |-> LET a == qd[keep[k]][1] b == qd[keep[k]][2] z == Pick(<<"sk", k>>, 4) IN
       <<IF k % 3 = 0 THEN Mid(a, b) ELSE qd[keep[k]][3], a, b, IF z = 0 THEN b ELSE IF z = 1 THEN a ELSE qd[keep[k]][3], IF z = 0 THEN a ELSE IF z = 1 THEN b ELSE IF z = 2 THEN a ELSE qd[keep[k]][4]>>])]),
    G([op |-> "isect", q |-> [k \in 1 .. Len(keep) |-> qd[keep[k]]]]), G([op |-> "dist", q |-> ds])>> \o [k \in 1 .. 6 |-> vc(k)]

\* point sets: random, on a circle (ties), on a line, repeated points, far from the origin
CircleCmds ==
  LET kind == run % 6 n == IF run % 9 = 8 THEN 20 + Pick("n", 40) ELSE 1 + Pick("n", IF kind = 3 THEN 6 ELSE 11)
      s == Of("s", Scales) v == Of("v", Moves \o <<<<R(1000), R(2000)>>>>)
      d == <<<<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<-4, -3>>, <<-3, -4>>, <<0, -5>>, <<3, -4>>, <<4, -3>>>>
      p(t) == CASE kind = 0 -> <<PickR(<<"x", t>>, -20, 20, 3), PickR(<<"y", t>>, -20, 20, 3)>>
                [] kind = 1 -> LET e == d[1 + Pick(<<"d", t>>, 12)] IN <<R(e[1]), R(e[2])>>
                [] kind = 2 -> LET a == Pick(<<"l", t>>, 20) IN <<RQ(a, 2), RQ(3 * a - 5, 4)>>
                [] kind = 3 -> LET e == d[1 + (Pick(<<"d", t>>, 3) * 4)] IN <<R(e[1]), R(e[2])>>
                [] kind = 4 -> <<R(Pick(<<"x", t>>, 4)), R(Pick(<<"y", t>>, 4))>>
                [] OTHER -> LET e == Outline("o") IN e[1 + (t % Len(e))]
      S == MapAll(s, v, [t \in 1 .. n |-> p(t)])
      w == Of("w", Moves)
      c3 == Shift(<<S[1], S[1 + Pick("t2", n)], S[1 + Pick("t3", n)]>>, <<R(0), R(0)>>)
      ctr == S[1 + Pick("dc", n)] rad == Of("dr", <<R(0), RRound(s (.) 5), RRound(s (/) 3), RRound(s (.) 40)>>) IN
  <<G([op |-> "circ", pts |-> S]), G([op |-> "mincirc", pts |-> S, srand |-> run]),
    G([op |-> "circ", pts |-> MapAll(R(1), w, S)]), G([op |-> "mincirc", pts |-> MapAll(R(1), w, S), srand |-> run + 1]), G([op |-> "mincirc", pts |-> S, set |-> TRUE]),
    G([op |-> "mincirc", pts |-> c3, few |-> TRUE]), G([op |-> "mincirc", pts |-> SubSeq(c3, 1, 1 + Pick("tn", 2)), few |-> TRUE]), G([op |-> "thru", pts |-> c3]), G([op |-> "thru", pts |-> SubSeq(c3, 1, 2)]),
    G([op |-> "disc", c |-> ctr, r |-> rad, q |-> S, c2 |-> IF Chance("dsame", 70) THEN ctr ELSE S[1], r2 |-> IF Chance("drs", 70) THEN rad ELSE RRound(rad (.) 2)])>>
Init == GenInit(0 .. Count - 1)
Next == ~fin /\ CASE Family = "poly" -> FinishWith("poly" \o ToString(run), PolyCmds)
                  [] Family = "lines" -> FinishWith("lines" \o ToString(run), LinesCmds)
                  [] Family = "circles" -> FinishWith("circ" \o ToString(run), CircleCmds)
Spec == Init /\ [][Next]_vars
=============================================================================
