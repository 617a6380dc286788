-------------------------------- MODULE Shapes --------------------------------
\* Outlines used by the scenario generators.
EXTENDS Plane, Gen
\* sixteen directions in counter-clockwise order
Dirs == <<<<4, 0>>, <<4, 2>>, <<3, 3>>, <<2, 4>>, <<0, 4>>, <<-2, 4>>, <<-3, 3>>, <<-4, 2>>, <<-4, 0>>, <<-4, -2>>, <<-3, -3>>, <<-2, -4>>, <<0, -4>>, <<2, -4>>, <<3, -3>>, <<4, -2>>>>
RECURSIVE KeepIdx(_, _)
KeepIdx(s, S) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in S THEN <<Head(s)>> ELSE <<>>) \o KeepIdx(Tail(s), S)
\* star-shaped about the origin; every quarter of the directions is used, so it is simple
Star(tag, n) ==
  LET must == {1 + 4 * q + Pick(<<tag, "q", q>>, 3) : q \in 0 .. 3}
      more == {1 + Pick(<<tag, "m", q>>, 16) : q \in 1 .. n - 4}
      idx == KeepIdx([k \in 1 .. 16 |-> k], IF n = 3 THEN {1, 6, 12} ELSE must \cup more)
  IN TLCEval([k \in 1 .. Len(idx) |-> PMul(<<R(Dirs[idx[k]][1]), R(Dirs[idx[k]][2])>>, RQ(2 + Pick(<<tag, "r", k>>, 7), 8))])
I2(s) == [k \in 1 .. Len(s) |-> <<R(s[k][1]), R(s[k][2])>>]
Templates == <<
  I2(<<<<0, 0>>, <<4, 0>>, <<4, 4>>, <<3, 4>>, <<3, 1>>, <<1, 1>>, <<1, 4>>, <<0, 4>>>>),            \* U
  I2(<<<<0, 0>>, <<4, 0>>, <<4, 1>>, <<1, 1>>, <<1, 4>>, <<0, 4>>>>),                                \* L
  I2(<<<<0, 0>>, <<7, 0>>, <<7, 3>>, <<6, 3>>, <<6, 1>>, <<5, 1>>, <<5, 3>>, <<4, 3>>, <<4, 1>>, <<3, 1>>, <<3, 3>>, <<0, 3>>>>),  \* comb
  I2(<<<<1, 0>>, <<2, 0>>, <<2, 1>>, <<3, 1>>, <<3, 2>>, <<2, 2>>, <<2, 3>>, <<1, 3>>, <<1, 2>>, <<0, 2>>, <<0, 1>>, <<1, 1>>>>),  \* plus
  I2(<<<<0, 0>>, <<5, 0>>, <<5, 5>>, <<1, 5>>, <<1, 2>>, <<3, 2>>, <<3, 3>>, <<2, 3>>, <<2, 4>>, <<4, 4>>, <<4, 1>>, <<0, 1>>>>),  \* spiral
  I2(<<<<0, 0>>, <<3, 0>>, <<3, 1>>, <<2, 1>>, <<2, 2>>, <<1, 2>>, <<1, 3>>, <<0, 3>>>>),            \* staircase
  I2(<<<<0, 0>>, <<4, 2>>, <<8, 0>>, <<6, 4>>, <<8, 8>>, <<4, 6>>, <<0, 8>>, <<2, 4>>>>),            \* four-pointed star
  I2(<<<<0, 0>>, <<4, 0>>, <<2, 1>>>>),                                                              \* flat triangle
  I2(<<<<0, 0>>, <<4, 0>>, <<4, 3>>, <<0, 3>>>>),                                                    \* rectangle
  I2(<<<<0, 0>>, <<2, 0>>, <<4, 0>>, <<4, 2>>, <<4, 4>>, <<2, 4>>, <<0, 4>>, <<0, 2>>>>),            \* straight corners
  I2(<<<<0, 0>>, <<6, 0>>, <<6, 6>>, <<4, 2>>, <<3, 6>>, <<2, 2>>, <<0, 6>>>>)                       \* crown
>>
Reversed(P) == TLCEval([k \in 1 .. Len(P) |-> P[Len(P) + 1 - k]])
Swapped(P) == TLCEval([k \in 1 .. Len(P) |-> <<P[k][2], P[k][1]>>])
From(P, d) == TLCEval([k \in 1 .. Len(P) |-> P[1 + ((k + d - 1) % Len(P))]])
\* one outline in any of its presentations
Outline(tag) ==
  LET b == IF Chance(<<tag, "star">>, 55) THEN Star(tag, 3 + Pick(<<tag, "n">>, 9)) ELSE Of(<<tag, "t">>, Templates)
      s == IF Chance(<<tag, "swap">>, 50) THEN Swapped(b) ELSE b
      o == IF Chance(<<tag, "rev">>, 50) THEN Reversed(s) ELSE s
  IN From(o, Pick(<<tag, "from">>, Len(o)))
\* scaled and moved, as doubles
Map(s, v, p) == <<RRound((s (.) p[1]) (+) v[1]), RRound((s (.) p[2]) (+) v[2])>>
MapAll(s, v, P) == TLCEval([k \in 1 .. Len(P) |-> Map(s, v, P[k])])
Scales == <<R(1), RQ(1, 8), RQ(1, 1000), R(100), RQ(1, 10), R(1)>>
Moves == <<<<R(0), R(0)>>, <<R(10), R(-7)>>, <<RQ(-3, 8), RQ(1, 4)>>, <<RQ(1, 10), RQ(3, 10)>>>>
\* a point well inside the outline
InPoint(P) ==
  LET n == Len(P)
      c == TLCEval({q \in {Mid(P[t[1]], P[t[2]]) : t \in {t \in (1 .. n) \X (1 .. n) : t[1] < t[2]}} \cup
                  {PMul(PAdd(PAdd(P[t[1]], P[t[2]]), P[t[3]]), RQ(1, 3)) : t \in {t \in (1 .. n) \X (1 .. n) \X (1 .. n) : t[1] < t[2] /\ t[2] < t[3]}} : Interior(P, q)})
      w == TLCEval([q \in c |-> OutlineDist2(P, q)])
  IN CHOOSE q \in c : \A p \in c : w[p] \preceq w[q]
=============================================================================
