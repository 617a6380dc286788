-------------------------------- MODULE Scenes --------------------------------
\* Scenes used by the scenario generators: shapes that fit together, with a marker for every area.
\* A scene: [shapes |-> sequence of outlines, marks |-> one position per area, leaves |-> positions in shapes without shapes
\* inside, points |-> extra points]
EXTENDS Shapes
Bx(a, b, c, e) == I2(<<<<a, b>>, <<c, b>>, <<c, e>>, <<a, e>>>>)
P2(a, b) == <<R(a), R(b)>>
Small(tag) == LET o == Outline(tag) IN TLCEval([k \in 1 .. Len(o) |-> PAdd(PMul(o[k], RQ(1, 4)), P2(4, 4))])
Ring(c, r, n, rot) == TLCEval([k \in 1 .. n |-> LET a == (2 (.) RPi) (.) RQ(2 * k + rot, 2 * n) IN <<c[1] (+) (r (.) RCos(a)), c[2] (+) (r (.) RSin(a))>>])
Scene(k, tag) ==
  CASE k = 0 -> LET P == Outline(tag) q == InPoint(P) IN [shapes |-> <<P>>, marks |-> <<q>>, leaves |-> <<q>>, points |-> <<>>]
    [] k = 1 -> LET Q == Small(tag) q == InPoint(Q) IN [shapes |-> <<Bx(0, 0, 8, 8), Q>>, marks |-> <<P2(1, 1), q>>, leaves |-> <<q>>, points |-> <<P2(1, 6)>>]
    [] k = 2 -> [shapes |-> <<Bx(0, 0, 4, 3), Bx(4, 0, 7, 3)>>, marks |-> <<P2(1, 1), P2(6, 1)>>, leaves |-> <<P2(1, 1), P2(6, 1)>>, points |-> <<P2(2, 2)>>]
    [] k = 3 -> [shapes |-> <<Bx(2, 0, 4, 2), Bx(4, 2, 6, 4), Bx(2, 4, 4, 6), Bx(0, 2, 2, 4)>>, marks |-> <<P2(3, 1), P2(5, 3), P2(3, 5), P2(1, 3), P2(3, 3)>>,
                 leaves |-> <<P2(3, 1), P2(5, 3)>>, points |-> <<>>]
    [] k = 4 -> LET n == 3 + Pick(<<tag, "n">>, 12) IN [shapes |-> <<Bx(0, 0, 8, 8), Ring(P2(4, 4), R(2), n, Pick(<<tag, "rot">>, 2))>>, marks |-> <<P2(1, 1), P2(4, 4)>>, leaves |-> <<P2(4, 4)>>, points |-> <<P2(6, 1)>>]
    [] k = 5 -> LET Q == Small(tag) q == InPoint(Q) IN [shapes |-> <<Bx(0, 0, 2, 2), Q>>, marks |-> <<P2(1, 1), q>>, leaves |-> <<P2(1, 1), q>>, points |-> <<>>]
    [] k = 6 -> LET n == 5 + Pick(<<tag, "n">>, 30) IN [shapes |-> <<Ring(P2(0, 0), R(4), n, 0)>>, marks |-> <<<<RQ(1, 3), RQ(1, 7)>>>>, leaves |-> <<<<RQ(1, 3), RQ(1, 7)>>>>, points |-> <<P2(0, 0)>>]
    [] k = 7 -> [shapes |-> <<TLCEval([j \in 1 .. 4 |-> <<Bx(0, 0, 8, 1)[j][1], Bx(0, 0, 8, 1)[j][2] (/) 2>>])>>, marks |-> <<<<R(1), RQ(1, 4)>>>>, leaves |-> <<<<R(1), RQ(1, 4)>>>>, points |-> <<>>]
    [] k = 8 -> [shapes |-> <<Bx(0, 0, 8, 8), Bx(1, 1, 7, 7), Ring(P2(4, 4), R(2), 4 + Pick(<<tag, "n">>, 6), 1)>>, marks |-> <<<<RQ(1, 2), RQ(1, 2)>>, P2(2, 2), P2(4, 4)>>, leaves |-> <<P2(4, 4)>>, points |-> <<>>]
    [] k = 9 -> [shapes |-> <<Templates[2], Bx(1, 1, 4, 4)>>, marks |-> <<<<RQ(1, 2), RQ(1, 2)>>, P2(2, 2)>>, leaves |-> <<<<RQ(1, 2), RQ(1, 2)>>, P2(2, 3)>>, points |-> <<>>]
    [] k = 10 -> [shapes |-> <<Bx(0, 0, 2, 2), Bx(2, 2, 5, 5)>>, marks |-> <<P2(1, 1), P2(4, 4)>>, leaves |-> <<P2(1, 1), P2(4, 4)>>, points |-> <<>>]
    [] k = 11 -> LET n == 6 + Pick(<<tag, "n">>, 20) IN [shapes |-> <<Bx(-8, -8, 8, 8), Ring(P2(0, 0), R(4), n, 0)>>, marks |-> <<P2(-7, -7), <<RQ(1, 3), RQ(1, 7)>>>>, leaves |-> <<<<RQ(1, 3), RQ(1, 7)>>>>, points |-> <<P2(0, 0)>>]
    [] k = 12 -> [shapes |-> <<Bx(0, 0, 3, 2), Bx(0, 2, 3, 5), Bx(0, 5, 3, 6), Bx(3, 0, 5, 2)>>, marks |-> <<P2(1, 1), P2(1, 4), <<R(1), RQ(11, 2)>>, P2(4, 1)>>, leaves |-> <<P2(1, 1), P2(1, 4)>>, points |-> <<P2(2, 4)>>]
    [] k = 14 -> LET n == 12 + Pick(<<tag, "n">>, 24) IN [shapes |-> <<Ring(P2(4, 4), R(4), n, Pick(<<tag, "rot">>, 2)), Bx(3, 3, 5, 5)>>, marks |-> <<P2(4, 1), P2(4, 4)>>, leaves |-> <<P2(4, 4), P2(4, 1)>>, points |-> <<>>]
    [] k = 15 -> LET q(j) == P2(2 * ((j - 1) % 4), 2 * ((j - 1) \div 4)) c == TLCEval([j \in 1 .. 12 |-> PAdd(q(j), P2(1, 1))]) IN
                [shapes |-> [j \in 1 .. 12 |-> Bx(2 * ((j - 1) % 4), 2 * ((j - 1) \div 4), 2 * ((j - 1) % 4) + 2, 2 * ((j - 1) \div 4) + 2)], marks |-> c, leaves |-> <<c[1], c[6], c[12]>>, points |-> <<>>]
    [] k = 13 -> [shapes |-> <<Bx(0, 0, 240, 1)>>, marks |-> <<<<R(1), RQ(1, 4)>>>>, leaves |-> <<<<R(1), RQ(1, 4)>>>>, points |-> <<>>]
Turns == <<<<R(1), R(0)>>, <<R(0), R(1)>>, <<RQ(3, 5), RQ(4, 5)>>, <<R(1), R(0)>>>>
Place(s, cs, v, p) == Map(s, v, Turn(p, cs[1], cs[2]))
PlaceAll(s, cs, v, P) == TLCEval([j \in 1 .. Len(P) |-> Place(s, cs, v, P[j])])
Placed(S, s, cs, v) == TLCEval([shapes |-> [j \in 1 .. Len(S.shapes) |-> PlaceAll(s, cs, v, S.shapes[j])], marks |-> PlaceAll(s, cs, v, S.marks),
                                leaves |-> PlaceAll(s, cs, v, S.leaves), points |-> PlaceAll(s, cs, v, S.points)])
RoughArea(S) == RMaxSeq([j \in 1 .. Len(S.shapes) |-> PArea(S.shapes[j])])
\* commands that draw it; mats: materials
AsRect(P) == Len(P) = 4 /\ P[1][2] \doteq P[2][2] /\ P[2][1] \doteq P[3][1] /\ P[3][2] \doteq P[4][2] /\ P[4][1] \doteq P[1][1]
ShapeCmd(P, tag) == IF AsRect(P) /\ Chance(<<tag, "rect">>, 60) THEN [op |-> "rect", p |-> P[1], q |-> P[3]] ELSE [op |-> "poly", how |-> Of(<<tag, "how">>, <<"vec", "ptr", "polygon">>), pts |-> P]
DrawCmds(S, mats, tag) ==
  [j \in 1 .. Len(S.shapes) |-> ShapeCmd(S.shapes[j], <<tag, j>>)]
  \o [j \in 1 .. Len(S.marks) |-> [op |-> "region", p |-> S.marks[j],
        prop |-> mats[IF Chance(<<tag, "rep">>, 35) THEN 1 + Pick(<<tag, "m", j>>, 2) ELSE 1 + ((j + Pick(<<tag, "mat">>, Len(mats))) % Len(mats))]]]
=============================================================================
