------------------------------ MODULE LinSystem ------------------------------
(***************************************************************************)
(* Systems of equations under prescription of node values (C03), their     *)
(* solution (C04), and the material-dependent entries they may have (C05). *)
(* lib/nikfemm/src/algebra/system.hpp, solvers.cpp, non_linear.hpp         *)
(*                                                                         *)
(* An entry is an expression  c + sum of t[k][1] / mu[t[k][2]]; a plain    *)
(* system is one whose expressions have no terms.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, ExactReal

VARIABLES sys   \* name |-> [m, A, b, fixed, A0, b0]:  A, A0 : pairs i <= j |-> expression;  b, b0 : 0..m-1 |-> expression
lvars == <<sys>>

(* ---- expressions ---- *)
K(v) == [c |-> R(v), t |-> <<>>]
Zero == K(0)
XAdd(x, y) == [c |-> x.c (+) y.c, t |-> x.t \o y.t]
XScale(x, d) == [c |-> x.c (.) d, t |-> [k \in 1 .. Len(x.t) |-> <<x.t[k][1] (.) d, x.t[k][2]>>]]
XSub(x, y) == XAdd(x, XScale(y, -1))
Term(v, k) == [c |-> R(0), t |-> <<<<R(v), k>>>>]
XEval(x, mu) == x.c (+) RSum([k \in 1 .. Len(x.t) |-> x.t[k][1] (/) mu[x.t[k][2] + 1]])
XScaleOf(x, mu) == RAbs(x.c) (+) RSum([k \in 1 .. Len(x.t) |-> RAbs(x.t[k][1] (/) mu[x.t[k][2] + 1])])
XLinear(x) == x.t = <<>>
\* two expressions with the same value for every permeability
Canon(x) == LET ks == {x.t[k][2] : k \in 1 .. Len(x.t)} IN [c |-> x.c, t |-> [q \in ks |-> RSum([k \in 1 .. Len(x.t) |-> IF x.t[k][2] = q THEN x.t[k][1] ELSE R(0)])]]
Cf(cx, q) == IF q \in DOMAIN cx.t THEN cx.t[q] ELSE R(0)
XSame(x, y) == LET a == Canon(x) b == Canon(y) IN a.c \doteq b.c /\ \A q \in DOMAIN a.t \cup DOMAIN b.t : Cf(a, q) \doteq Cf(b, q)

(* ---- systems ---- *)
Up(i, j) == IF i <= j THEN <<i, j>> ELSE <<j, i>>
Ent(A, i, j) == IF Up(i, j) \in DOMAIN A THEN A[Up(i, j)] ELSE Zero
Rows(s) == 0 .. s.m - 1
Mk(m, A, b) == [m |-> m, A |-> A, b |-> b, A0 |-> A, b0 |-> b, fixed |-> <<>>]

\* The constrained problem, declaratively: node i prescribed <=> i \in DOMAIN f.
ConstrainedA(s, f, i, j) == IF i = j /\ i \in DOMAIN f THEN K(1) ELSE IF i \in DOMAIN f \/ j \in DOMAIN f THEN Zero ELSE Ent(s.A0, i, j)
RECURSIVE SubAll(_, _, _, _)
SubAll(s, f, i, J) == IF J = {} THEN s.b0[i] ELSE LET j == CHOOSE j \in J : TRUE IN XSub(SubAll(s, f, i, J \ {j}), XScale(Ent(s.A0, i, j), f[j]))
ConstrainedB(s, f, i) == IF i \in DOMAIN f THEN K(f[i]) ELSE SubAll(s, f, i, {j \in DOMAIN f : Up(i, j) \in DOMAIN s.A0})

\* The elimination as it is carried out: one pass over the stored entries.
Eliminated(s, id, v) ==
  LET hit == {p \in DOMAIN s.A : p[1] # p[2] /\ id \in {p[1], p[2]}}
      moved(i) == {p \in hit : i \in {p[1], p[2]} /\ i # id}
  IN [s EXCEPT !.A = TLCEval([p \in DOMAIN s.A \cup {<<id, id>>} |-> IF p = <<id, id>> THEN K(1) ELSE IF p \in hit THEN Zero ELSE s.A[p]]),
               !.b = TLCEval([i \in Rows(s) |-> IF i = id THEN K(v) ELSE IF moved(i) = {} THEN s.b[i] ELSE XSub(s.b[i], XScale(s.A[CHOOSE p \in moved(i) : TRUE], v))]),
               !.fixed = TLCEval([i \in DOMAIN s.fixed \cup {id} |-> IF i = id THEN R(v) ELSE s.fixed[i]])]

LInit == sys = <<>>
With(f, n, v) == TLCEval([x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]])
NewSystem(n, m, A, b) == sys' = With(sys, n, Mk(m, A, b))
CopySystem(n, to) == n \in DOMAIN sys /\ sys' = With(sys, to, sys[n])
Prescribe(n, id, v) ==
  /\ n \in DOMAIN sys /\ id \in Rows(sys[n])
  /\ id \in DOMAIN sys[n].fixed => sys[n].fixed[id] \doteq v
  /\ sys' = With(sys, n, Eliminated(sys[n], id, v))

(* ---- what C03 claims, of every reachable system ---- *)
IsConstrained(s) == /\ \A i, j \in Rows(s) : XSame(Ent(s.A, i, j), ConstrainedA(s, s.fixed, i, j))
                    /\ \A i \in Rows(s) : XSame(s.b[i], ConstrainedB(s, s.fixed, i))
AlwaysConstrained == \A n \in DOMAIN sys : IsConstrained(sys[n])
Decoupled == \A n \in DOMAIN sys : \A i \in DOMAIN sys[n].fixed : \A j \in Rows(sys[n]) \ {i} : XSame(Ent(sys[n].A, i, j), Zero)

(* ---- what C04 claims: x solves M x = b to tolerance; M a dense matrix ---- *)
MatVec(M, x) == TLCEval([i \in 1 .. Len(M) |-> RDot(M[i], x)])
Residual(M, b, x) == LET y == MatVec(M, x) IN [i \in 1 .. Len(b) |-> b[i] (-) y[i]]
Norm2(v) == RDot(v, v)
Abs(v) == [i \in 1 .. Len(v) |-> RAbs(v[i])]
\* rounding allowance: the recurrence for the residual drifts from the true residual
Drift(M, b, x) == RMaxSeq([i \in 1 .. Len(b) |-> RDot(Abs(M[i]), Abs(x)) (+) RAbs(b[i])])
Solves(M, b, x, tol) == /\ Len(x) = Len(b) /\ \A i \in 1 .. Len(x) : RFin(x[i])
                        /\ LET lim == (RQ(11, 10) (.) tol) (+) (E12 (.) Drift(M, b, x)) IN RLe(Norm2(Residual(M, b, x)), lim (.) lim)
=============================================================================
