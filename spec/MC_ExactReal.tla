----------------------------- MODULE MC_ExactReal -----------------------------
\* The evaluation of the real numbers against their definitions: the same operations on rationals <<n, d>>, written out here
\* under other names, for all pairs of small rationals; and what the functions without a rational definition must satisfy.
EXTENDS ExactReal, Integers, Sequences
CONSTANTS N, D
VARIABLE x
RECURSIVE G(_, _)
G(a, b) == IF b = 0 THEN a ELSE G(b, a % b)
Ab(a) == IF a < 0 THEN -a ELSE a
Q(n, d) == LET s == IF d < 0 THEN -1 ELSE 1 g == G(Ab(n), Ab(d)) IN <<(s * n) \div g, (s * d) \div g>>
Rationals == {Q(n, d) : n \in -N .. N, d \in 1 .. D}
E(q) == RQ(q[1], q[2])                      \* as evaluated
T40 == TenTo(-40)
\* the evaluated number v is the rational q: v * denominator = numerator
Is(v, q) == Near(RMul(v, q[2]), q[1], T40)
Less(p, q) == p[1] * q[2] < q[1] * p[2]
Init == x \in Rationals
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Arithmetic == \A y \in Rationals :
  /\ Is(RAdd(E(x), E(y)), Q(x[1] * y[2] + y[1] * x[2], x[2] * y[2]))
  /\ Is(RSub(E(x), E(y)), Q(x[1] * y[2] - y[1] * x[2], x[2] * y[2]))
  /\ Is(RMul(E(x), E(y)), Q(x[1] * y[1], x[2] * y[2]))
  /\ y[1] # 0 => Is(RDiv(E(x), E(y)), Q(x[1] * y[2], x[2] * y[1]))
Order == \A y \in Rationals :
  /\ RLt(E(x), E(y)) = Less(x, y) /\ RLe(E(x), E(y)) = ~Less(y, x) /\ REq(E(x), E(y)) = (x = y)
  /\ Is(RMin(E(x), E(y)), IF Less(x, y) THEN x ELSE y) /\ Is(RMax(E(x), E(y)), IF Less(x, y) THEN y ELSE x)
  /\ Near(E(x), E(y), RQ(1, 11)) = ~Less(Q(1, 11), Q(Ab(x[1] * y[2] - y[1] * x[2]), x[2] * y[2]))
Single == /\ Is(E(x), x) /\ Is(R(E(x)), x) /\ Is(RNeg(E(x)), Q(-x[1], x[2])) /\ Is(RAbs(E(x)), Q(Ab(x[1]), x[2]))
          /\ RSgn(E(x)) = (IF x[1] < 0 THEN -1 ELSE IF x[1] = 0 THEN 0 ELSE 1) /\ RFloor(E(x)) = x[1] \div x[2] /\ RFin(E(x)) /\ ~RNaN(E(x))
          /\ (\E k \in 0 .. 10 : x[2] = 2 ^ k) => RRound(E(x)) \doteq E(x)
          /\ Near(RRound(E(x)), E(x), TenTo(-15))
Sums == \A y \in Rationals :
  /\ Is(RSum(<<E(x), E(y), E(x)>>), Q(2 * x[1] * y[2] + y[1] * x[2], x[2] * y[2])) /\ RSum(<<>>) \doteq 0
  /\ Is(RDot(<<E(x), E(y)>>, <<E(y), R(3)>>), Q(x[1] * y[1] + 3 * y[1] * x[2], x[2] * y[2]))
  /\ Is(RMaxSeq(<<E(x), E(y)>>), IF Less(x, y) THEN y ELSE x) /\ Is(RMinSeq(<<E(y), E(x)>>), IF Less(x, y) THEN x ELSE y)
  /\ LET A == RAssemble(<<<<<<1, 2, E(x), R(1)>>, <<1, 1, E(y), R(2)>>>>, <<<<1, 2, E(y), R(5)>>>>>>) IN
       DOMAIN A = {<<1, 2>>, <<1, 1>>} /\ Is(A[<<1, 2>>][1], Q(x[1] * y[2] + y[1] * x[2], x[2] * y[2])) /\ A[<<1, 2>>][2] \doteq 6 /\ Is(A[<<1, 1>>][1], y) /\ A[<<1, 1>>][2] \doteq 2
  /\ LET A == RCells(<<<<0, 0, E(x)>>, <<0, 1, E(y)>>>>) s == RowSums(A, 2, <<R(2), R(-3)>>) IN
       /\ DOMAIN A = {<<1, 1>>, <<1, 2>>} /\ A[<<1, 1>>] \doteq E(x) /\ A[<<1, 2>>] \doteq E(y)
       /\ Is(s[1][1], Q(2 * x[1] * y[2] - 3 * y[1] * x[2], x[2] * y[2])) /\ Is(s[1][2], Q(2 * Ab(x[1]) * y[2] + 3 * Ab(y[1]) * x[2], x[2] * y[2])) /\ Is(s[2][1], Q(2 * y[1], y[2]))
\* roots and angles
Irrational ==
  /\ x[1] >= 0 => LET r == RSqrt(E(x)) IN R(0) \preceq r /\ Near(r (.) r, E(x), TenTo(-30))
  /\ LET s == RSin(E(x)) c == RCos(E(x)) IN Near((s (.) s) (+) (c (.) c), 1, E12) /\ Near(RSin(RSub(RMul(RPi, RQ(1, 2)), E(x))), c, E12)
       /\ (x[1] > -3 * x[2] /\ x[1] < 3 * x[2] => Near(RAtan2(s, c), E(x), E12))
  /\ Near(RSin(RDiv(RPi, 6)), RQ(1, 2), E12)
Repeated == \A n \in 1 .. 5 : LET k == Rnd(7, <<"a", x>>, n) IN k \in 0 .. n - 1 /\ k = Rnd(7, <<"a", x>>, n)
SetSeq == LET q == SeqOf({x, <<0, 1>>}) IN {q[k] : k \in 1 .. Len(q)} = {x, <<0, 1>>}
Powers == TenTo(3) \doteq 1000 /\ TenTo(-3) \doteq RQ(1, 1000) /\ TenTo(0) \doteq 1
=============================================================================
