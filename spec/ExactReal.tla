------------------------------ MODULE ExactReal ------------------------------
(***************************************************************************)
(* The real numbers used by the specification.                             *)
(*                                                                         *)
(* The definitions below are over rationals <<n, d>>; integers may be used *)
(* wherever a real is expected.  Every module uses reals only through      *)
(* these operators, so TLC is free to evaluate them with the class         *)
(* ExactReal.class (arbitrary-precision decimals: exact for +, -, * on the *)
(* numbers that occur, 60 digits for /, 40 for the square root, IEEE       *)
(* double for sin, cos, atan2).  MC_ExactReal checks that evaluation       *)
(* against the definitions.                                                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RECURSIVE XrGcd(_, _)
XrGcd(a, b) == IF b = 0 THEN a ELSE XrGcd(b, a % b)
LOCAL IAbs(a) == IF a < 0 THEN -a ELSE a
LOCAL IsI(x) == x \in Int
LOCAL Num(x) == IF IsI(x) THEN x ELSE x[1]
LOCAL Den(x) == IF IsI(x) THEN 1 ELSE x[2]
LOCAL Mk(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                      g == XrGcd(IAbs(n), IAbs(d))
                  IN <<(s * n) \div g, (s * d) \div g>>

R(x)       == Mk(Num(x), Den(x))
RQ(n, d)   == Mk(n, d)
RAdd(x, y) == Mk(Num(x) * Den(y) + Num(y) * Den(x), Den(x) * Den(y))
RSub(x, y) == Mk(Num(x) * Den(y) - Num(y) * Den(x), Den(x) * Den(y))
RMul(x, y) == Mk(Num(x) * Num(y), Den(x) * Den(y))
RDiv(x, y) == Mk(Num(x) * Den(y), Den(x) * Num(y))
RNeg(x)    == Mk(-Num(x), Den(x))
RAbs(x)    == Mk(IAbs(Num(x)), Den(x))
RLt(x, y)  == Num(x) * Den(y) < Num(y) * Den(x)
RLe(x, y)  == Num(x) * Den(y) <= Num(y) * Den(x)
REq(x, y)  == Num(x) * Den(y) = Num(y) * Den(x)
RSgn(x)    == IF Num(x) < 0 THEN -1 ELSE IF Num(x) = 0 THEN 0 ELSE 1
RMin(x, y) == IF RLe(x, y) THEN R(x) ELSE R(y)
RMax(x, y) == IF RLe(x, y) THEN R(y) ELSE R(x)
RFloor(x)  == Num(x) \div Den(x)
RFin(x)    == TRUE      \* FALSE for the NaN and infinities a trace may contain
RNaN(x)    == FALSE
RECURSIVE RSum(_)
RSum(s)    == IF s = <<>> THEN R(0) ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(s, t) == RSum([i \in 1 .. Len(s) |-> RMul(s[i], t[i])])
RMaxSeq(s) == R(s[CHOOSE i \in 1 .. Len(s) : \A j \in 1 .. Len(s) : RLe(s[j], s[i])])
RMinSeq(s) == R(s[CHOOSE i \in 1 .. Len(s) : \A j \in 1 .. Len(s) : RLe(s[i], s[j])])
RRound(x)  == R(x)      \* nearest double

\* Irrational functions: no rational definition; only their evaluation is used, always within a tolerance.
RSqrt(x)     == CHOOSE y \in {} : TRUE
RSin(x)      == CHOOSE y \in {} : TRUE
RCos(x)      == CHOOSE y \in {} : TRUE
RAtan2(y, x) == CHOOSE z \in {} : TRUE
RPi          == RQ(355, 113)
RStr(x)      == ""
\* A sequence of records read from a file of JSON lines.
RLoad(file)  == <<>>
\* Appends a value to a file as one line of JSON.
REmit(file, v) == TRUE
\* Some element of 0 .. n-1 that depends on (seed, k) only: diversity of generated scenarios, nothing is concluded from it.
Rnd(seed, k, n) == CHOOSE x \in 0 .. n - 1 : TRUE
\* The elements of a finite set in some order.
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

\* Sparse symmetric matrices: pairs i <= j |-> number, absent = 0.
\* from a list of <<i, j, number>>, indices from 0, no pair twice
RCells(s) == [p \in {<<s[k][1] + 1, s[k][2] + 1>> : k \in 1 .. Len(s)} |-> R(s[CHOOSE k \in 1 .. Len(s) : p = <<s[k][1] + 1, s[k][2] + 1>>][3])]
\* the sum of element matrices: cells[e] a sequence of <<i, j, value, scale>>, indices from 1; values and scales added up
RAssemble(cells) ==
  LET At2(e) == {k \in 1 .. Len(cells[e]) : TRUE}
      keys == UNION {{<<cells[e][k][1], cells[e][k][2]>> : k \in At2(e)} : e \in 1 .. Len(cells)}
      Sum(p, f) == RSum([e \in 1 .. Len(cells) |-> RSum([k \in 1 .. Len(cells[e]) |-> IF <<cells[e][k][1], cells[e][k][2]>> = p THEN cells[e][k][f] ELSE R(0)])])
  IN [p \in keys |-> <<Sum(p, 3), Sum(p, 4)>>]
\* each row i times x, and the sum of the sizes of its terms
LOCAL AtIJ(A, i, j) == LET p == IF i <= j THEN <<i, j>> ELSE <<j, i>> IN IF p \in DOMAIN A THEN A[p] ELSE R(0)
RowSums(A, n, x) == [i \in 1 .. n |-> <<RSum([j \in 1 .. n |-> RMul(AtIJ(A, i, j), x[j])]), RSum([j \in 1 .. n |-> RAbs(RMul(AtIJ(A, i, j), x[j]))])>>]

\* Infix notation.
x (+) y == RAdd(x, y)
x (-) y == RSub(x, y)
x (.) y == RMul(x, y)
x (/) y == RDiv(x, y)
x \prec y == RLt(x, y)
x \preceq y == RLe(x, y)
x \doteq y == REq(x, y)

\* |x - y| <= tol
Near(x, y, tol) == RFin(x) /\ RFin(y) /\ RLe(RAbs(RSub(x, y)), tol)
\* 10^-k
RECURSIVE TenTo(_)
TenTo(k) == IF k = 0 THEN R(1) ELSE IF k > 0 THEN RMul(10, TenTo(k - 1)) ELSE RDiv(TenTo(k + 1), 10)
E12 == TenTo(-12)
E9  == TenTo(-9)
E6  == TenTo(-6)
\* relative closeness with respect to a scale
NearRel(x, y, scale, rel) == Near(x, y, RMul(rel, scale))
=============================================================================
