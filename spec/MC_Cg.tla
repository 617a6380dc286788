-------------------------------- MODULE MC_Cg --------------------------------
(***************************************************************************)
(* Design of the iterative solvers (C04): preconditioned conjugate         *)
(* gradients with identity, diagonal or symmetric over-relaxation          *)
(* preconditioning, on every positive definite matrix of a small family    *)
(* and from every starting vector of a small family, zero residual         *)
(* included.  One action per iteration of the loop.                        *)
(* lib/nikfemm/src/algebra/solvers.cpp                                     *)
(***************************************************************************)
EXTENDS LinSystem
CONSTANT N
VARIABLES M, b, x, r, p, rz, it, st, pc
vars == <<M, b, x, r, p, rz, it, st, pc, sys>>

Offs == {RQ(-1, 1), R(0), RQ(1, 2)}
Mats == {m \in [{q \in (1 .. N) \X (1 .. N) : q[1] < q[2]} -> Offs] : TRUE}
Dense(m) == TLCEval([i \in 1 .. N |-> TLCEval([j \in 1 .. N |-> IF i = j THEN RQ(2 * N + i, 1) ELSE IF i < j THEN m[<<i, j>>] ELSE m[<<j, i>>]])])
Rhs == {TLCEval([i \in 1 .. N |-> RQ(0, 1)]), TLCEval([i \in 1 .. N |-> RQ(2 * i - 3, 1)])}
Starts(A, y) == {TLCEval([i \in 1 .. N |-> R(0)]), TLCEval([i \in 1 .. N |-> R(i)])}
Sol == TLCEval([i \in 1 .. N |-> RQ(1, i)])          \* starting at the solution: b := M Sol

Zs(v) == TLCEval([i \in 1 .. N |-> v[i]])
Axpy(u, a, v) == Zs([i \in 1 .. N |-> u[i] (+) (a (.) v[i])])
\* preconditioners; "ssor" with omega = 3/2: (D + wL) D^-1 (D + wU) / (w (2 - w))
RECURSIVE Fwd(_, _, _), Bwd(_, _, _)
W == RQ(3, 2)
Fwd(A, v, i) == IF i = 0 THEN <<>> ELSE LET u == Fwd(A, v, i - 1) IN Append(u, (v[i] (-) (W (.) RSum([j \in 1 .. i - 1 |-> A[i][j] (.) u[j]]))) (/) A[i][i])
Bwd(A, v, i) == IF i = N + 1 THEN <<>> ELSE LET u == Bwd(A, v, i + 1) IN <<(v[i] (-) (W (.) RSum([j \in 1 .. N - i |-> A[i][i + j] (.) u[j]]))) (/) A[i][i]>> \o u
Prec(A, v) == CASE pc = "none" -> v
                [] pc = "diag" -> Zs([i \in 1 .. N |-> v[i] (/) A[i][i]])
                [] pc = "ssor" -> LET f == Fwd(A, [i \in 1 .. N |-> v[i] (.) W (.) RQ(1, 2)], N) IN Zs(Bwd(A, [i \in 1 .. N |-> f[i] (.) A[i][i]], 1))
Tol == TenTo(-12)
Small(v) == RLt(RDot(v, v), Tol (.) Tol)

Init == /\ sys = <<>> /\ pc \in {"none", "diag", "ssor"}
        /\ \E m \in Mats : M = Dense(m)
        /\ \/ b \in Rhs /\ x \in Starts(M, b)
           \/ b = MatVec(M, Sol) /\ x = Sol
        /\ r = Zs(Residual(M, b, x)) /\ p = Prec(M, r) /\ rz = RDot(r, p) /\ it = 0
        /\ st = IF Small(r) THEN "done" ELSE "run"
Iterate == /\ st = "run"
           /\ LET Ap == MatVec(M, p) a == rz (/) RDot(p, Ap) r2 == Axpy(r, RNeg(a), Ap) IN
              /\ x' = Axpy(x, a, p) /\ r' = r2
              /\ IF Small(r2) THEN st' = "done" /\ UNCHANGED <<p, rz>>
                 ELSE LET z == Prec(M, r2) n == RDot(r2, z) IN st' = "run" /\ rz' = n /\ p' = Axpy(z, n (/) rz, p)
           /\ it' = it + 1 /\ UNCHANGED <<M, b, pc, sys>>
Spec == Init /\ [][Iterate]_vars /\ WF_vars(Iterate)

Finite == \A i \in 1 .. N : RFin(x[i])
ResidualTrue == \A i \in 1 .. N : Near(r[i], Residual(M, b, x)[i], TenTo(-40))
Descends == st = "run" => RLt(0, rz)                        \* so the next step is defined
InNSteps == it <= N                                         \* conjugate directions: at most N iterations
DoneSolves == st = "done" => Solves(M, b, x, Tol)
Terminates == <>(st = "done")
=============================================================================
