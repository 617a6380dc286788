---------------------------- MODULE Gen_LinSystem ----------------------------
\* Scenarios for C03 .. C06.
\*  "orders":  order-3 systems, every sequence of distinct prescriptions (C03)
\*  "fix":     random systems, plain and material-dependent, prescriptions, repetitions, copies (C03)
\*  "solve":   random positive definite systems, four solvers, special starting vectors (C04)
\*  "expr":    random register programs (C05);  "matrix": random material-dependent matrices (C05)
\*  "curves":  random magnetisation curves and materials (C06)
EXTENDS Material, Gen
vars == <<mvars, gvars>>
A(c) == c @@ [g |-> "alg"]
Mu(tag, n) == TLCEval([k \in 1 .. n |-> RRound(PickR(<<tag, k>>, 1, 64, 16))])
V(tag) == RRound(Of(tag, <<RQ(1, 1), RQ(-2, 1), RQ(7, 4), RQ(-1, 3), RQ(100, 1), RQ(-5, 8), R(0)>>))
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN <<p>> \o SetSeq(S \ {p})
Upper(m) == {p \in (0 .. m - 1) \X (0 .. m - 1) : p[1] <= p[2]}

\* ---- orders: run = 16 * (index of the sequence) + pattern of off-diagonal entries
Seqs == UNION {{s \in [1 .. n -> 0 .. 2] : \A a, b \in 1 .. n : a # b => s[a] # s[b]} : n \in 1 .. 3}
SeqList == SetSeq(Seqs)
OrdRuns == {r \in 0 .. 16 * Len(SeqList) - 1 : r % 16 < 8}
OffPat(r) == {<<<<0, 1>>, <<0, 2>>, <<1, 2>>>>[k] : k \in {k \in 1 .. 3 : ((r % 16) \div 2 ^ (k - 1)) % 2 = 1}}
OrdCmds == LET s == SeqList[1 + run \div 16]
               E == SetSeq(OffPat(run)) IN
  <<A([op |-> "sys", m |-> 3, A |-> [k \in 1 .. Len(E) |-> <<E[k][1], E[k][2], RQ(1 + E[k][1] - 3 * E[k][2], 2)>>] \o <<<<0, 0, RQ(7, 1)>>, <<1, 1, RQ(9, 1)>>, <<2, 2, RQ(11, 1)>>>>,
         b |-> <<RQ(1, 1), RQ(-2, 1), RQ(3, 1)>>])>>
  \o [k \in 1 .. Len(s) |-> A([op |-> "fix", id |-> s[k], v |-> RQ(s[k] * 5 - 3, 2)])]

\* ---- fix: three objects a, b (copies) ; plain for even runs, material-dependent for odd ones
M == 2 + (run % 8)
Depth == 3 + (run % 9)
Pat(tag) == SetSeq({p \in Upper(M) : (p[1] = p[2] /\ Chance(<<tag, p, "d">>, 85)) \/ (p[1] # p[2] /\ Chance(<<tag, p>>, 45))})
FixStep ==
  LET nl == run % 3 = 1 mu == Mu("mu", 6) IN
  IF cmds = <<>> THEN
    LET E == Pat("pat")
        plain == [k \in 1 .. Len(E) |-> <<E[k][1], E[k][2], V(<<"a", k>>)>>]
        mixed == [k \in 1 .. Len(E) |-> <<E[k][1], E[k][2], V(<<"a", k>>), [q \in 1 .. Pick(<<"nt", k>>, 4) |-> <<V(<<"t", k, q>>), Pick(<<"e", k, q>>, 6)>>]>>]
        b == [q \in 1 .. M |-> V(<<"b", q>>)] IN
    /\ NewSystem("a", M, TLCEval([p \in {E[k] : k \in 1 .. Len(E)} |-> Zero]), TLCEval([q \in 0 .. M - 1 |-> Zero])) /\ UNCHANGED <<reg, sealed>>
    /\ Cmd(A(IF nl THEN [op |-> "nls", m |-> M, A |-> mixed, b |-> b, mu |-> mu] ELSE [op |-> "sys", m |-> M, A |-> plain, b |-> b]))
  ELSE IF Len(cmds) >= Depth THEN Finish("fix" \o ToString(run)) /\ UNCHANGED mvars
  ELSE LET n == IF "b" \in DOMAIN sys /\ Chance("obj", 50) THEN "b" ELSE "a" id == Pick("id", M)
           v == IF id \in DOMAIN sys[n].fixed THEN sys[n].fixed[id] ELSE V("v") IN
       IF ~nl /\ "b" \notin DOMAIN sys /\ Chance("copy", 20)
       THEN CopySystem("a", "b") /\ UNCHANGED <<reg, sealed>> /\ Cmd(A([op |-> "syscopy", to |-> "b"]))
       ELSE Prescribe(n, id, v) /\ UNCHANGED <<reg, sealed>> /\ Cmd(A([op |-> "fix", o |-> n, id |-> id, v |-> v] @@ IF nl THEN [mu |-> mu] ELSE [z |-> 0]))

\* ---- solve: Laplacian-like (diagonally dominant) or Gram (general positive definite) matrices
SolveCmds ==
  LET n == 1 + (run % 14)
      gram == run % 4 = 3
      scale == Of("scale", <<R(1), TenTo(-7), TenTo(6), R(1), TenTo(-12)>>)
      off(a, b) == IF Chance(<<"o", a, b>>, 40) THEN RQ(-1 - Pick(<<"ov", a, b>>, 7), 4) ELSE IF Chance(<<"p", a, b>>, 10) THEN RQ(1, 2) ELSE R(0)
      o(a, b) == IF a < b THEN off(a, b) ELSE off(b, a)
      g(a, b) == PickR(<<"g", a, b>>, -4, 4, 2)
      G == TLCEval([a \in 1 .. n |-> TLCEval([b \in 1 .. n |-> g(a, b)])])
      ent(a, b) == IF gram THEN RSum([k \in 1 .. n |-> G[a][k] (.) G[b][k]]) (+) (IF a = b THEN RQ(1, 2) ELSE R(0))
                   ELSE IF a = b THEN RSum([k \in 1 .. n |-> IF k = a THEN R(0) ELSE RAbs(o(a, k))]) (+) RQ(1 + Pick(<<"d", a>>, 8), 8) ELSE o(a, b)
      D == TLCEval([a \in 1 .. n |-> TLCEval([b \in 1 .. n |-> ent(a, b) (.) scale])])
      E == SetSeq({p \in Upper(n) : ~REq(D[p[1] + 1][p[2] + 1], 0)})
      xs == TLCEval([k \in 1 .. n |-> PickR(<<"xs", k>>, -20, 20, 4)])
      start == run % 5                       \* 0: zero, 1: random, 2: zero right-hand side, 3: at the solution, 4: both zero
      bb == IF start \in {2, 4} THEN [k \in 1 .. n |-> R(0)] ELSE [k \in 1 .. n |-> RDot(D[k], xs)]
      x0 == IF start = 3 THEN xs ELSE IF start \in {0, 4} THEN [k \in 1 .. n |-> R(0)] ELSE [k \in 1 .. n |-> PickR(<<"x0", k>>, -20, 20, 4)]
      tol == Of("tol", <<TenTo(-6), TenTo(-9), TenTo(-4)>>) (.) RMax(scale, TenTo(-7))
      ss == IF gram THEN <<"cg", "jacobi", "ssor">> ELSE <<"cg", "jacobi", "ssor", "ic">> IN
  <<A([op |-> "coo", m |-> n])>>
  \o [k \in 1 .. Len(E) |-> A([op |-> "set", i |-> E[k][1], j |-> E[k][2], v |-> D[E[k][1] + 1][E[k][2] + 1]])]
  \o <<A([op |-> "compress"])>>
  \o [k \in 1 .. Len(ss) |-> A([op |-> "lsolve", solver |-> ss[k], b |-> bb, x0 |-> x0, tol |-> tol, iters |-> 3000 + 200 * n, omega |-> Of(<<"om", k>>, <<RQ(3, 2), RQ(1, 1), RQ(1, 2), RQ(7, 4)>>)])]

\* ---- expr
Fs == <<"setd", "sete", "addd", "subd", "addt", "subt", "adde", "sube", "mul">>
Rn == <<"p", "q", "s">>
ExprStep ==
  IF Len(cmds) >= 6 + (run % 15) THEN Finish("expr" \o ToString(run)) /\ UNCHANGED mvars
  ELSE LET f == Of("f", Fs) t == Of("t", Rn) u == Of("u", Rn) v == V("v") k == Pick("k", 5) IN
       \* at times the term just added is taken away again
       LET z == cmds[Len(cmds)] IN
       IF cmds # <<>> /\ z.f \in {"addt", "subt"} /\ Chance("undo", 45)
       THEN LET g == IF Chance("same", 50) THEN z.f ELSE IF z.f = "addt" THEN "subt" ELSE "addt" w == IF g = z.f THEN R(0) (-) z.v ELSE z.v IN
            ExprOp(g, z.t, u, w, z.k) /\ Cmd(A([op |-> "ex", f |-> g, t |-> z.t, u |-> u, v |-> w, k |-> z.k, mu |-> Mu("mu", 5)]))
       ELSE
       ExprOp(f, t, u, v, k) /\ Cmd(A([op |-> "ex", f |-> f, t |-> t, u |-> u, v |-> v, k |-> k, mu |-> Mu("mu", 5)]))
\* ---- matrix: assembled, compressed, evaluated for several permeability vectors, prescribed in between
MatrixCmds ==
  LET E == Pat("pat")
      mixed == [k \in 1 .. Len(E) |-> <<E[k][1], E[k][2], V(<<"a", k>>), [q \in 1 .. Pick(<<"nt", k>>, 4) |-> <<V(<<"t", k, q>>), Pick(<<"e", k, q>>, 6)>>]>>]
      ev(k) == A([op |-> "nleval", mu |-> Mu(<<"mu", k>>, 6)])
      turned(k) == LET q == Mu(<<"mu", k>>, 6) IN A([op |-> "nleval", mu |-> <<q[2], q[3], q[4], q[5], q[6], q[1]>>]) IN
  <<A([op |-> "nls", m |-> M, A |-> mixed, b |-> [q \in 1 .. M |-> V(<<"b", q>>)], mu |-> Mu("mu", 6)])>>
  \o (IF run % 2 = 0 THEN <<A([op |-> "fix", id |-> Pick("id", M), v |-> V("fv"), mu |-> Mu("mu", 6)])>> ELSE <<>>)
  \o <<A([op |-> "nlcompress"]), ev(1), ev(2), ev(1), turned(1), ev(3)>>
\* ---- curves
Curve(n) == LET B(k) == RRound(RSum([q \in 1 .. k |-> RQ(1 + Pick(<<"dB", q>>, 9), 8)]) (-) RQ(1, 4)) H(k) == RRound(RSum([q \in 1 .. k |-> RQ(100 + 50 * q * Pick(<<"dH", q>>, 20), 1)])) IN
            TLCEval([k \in 1 .. n |-> <<B(k), H(k)>>])
Shuffle(s, tag) == LET n == Len(s) k == 1 + Pick(tag, n) IN [q \in 1 .. n |-> s[1 + ((q * (IF n % 2 = 1 THEN 2 ELSE 1) + k) % n)]]
Mat(tag, J, M0, mu, bh) == [J |-> J, M |-> M0, mu |-> mu, bh |-> bh]
CurveCmds ==
  LET n == IF run % 10 = 9 THEN 9 + Pick("n", 16) ELSE run % 8
      c == Curve(n)
      mu == PickR("mu", 1, 100, 1000)
      fields == [k \in 1 .. n |-> c[k][1]] \o [k \in 1 .. n - 1 |-> RRound((c[k][1] (+) c[k + 1][1]) (/) 2)] \o [k \in 1 .. 6 |-> PickR(<<"f", k>>, -8, 90, 8)] \o <<R(0), RQ(1000, 1)>>
      base == Mat("a", RQ(Pick("J", 3), 1), <<RQ(Pick("Mx", 3), 2), RQ(1, 1)>>, mu, Shuffle(c, "sh"))
      vars2 == <<base, [base EXCEPT !.bh = c], [base EXCEPT !.J = RQ(17, 2)], [base EXCEPT !.M = <<RQ(1, 1), RQ(9, 1)>>], [base EXCEPT !.M = <<RQ(77, 8), base.M[2]>>], [base EXCEPT !.mu = mu (+) RQ(1, 8)]>>
               \o (IF n > 0 THEN <<[base EXCEPT !.bh = [k \in 1 .. n - 1 |-> c[k]]], [base EXCEPT !.bh = [c EXCEPT ![n] = <<c[n][1], c[n][2] (+) 1>>]], [base EXCEPT !.bh = [c EXCEPT ![1] = <<c[1][1] (-) RQ(1, 16), c[1][2]>>]]>> ELSE <<>>) IN
  <<A([op |-> "bh", prop |-> base, B |-> fields])>> \o [k \in 1 .. Len(vars2) |-> A([op |-> "propeq", a |-> base, b |-> vars2[k]])] \o [k \in 1 .. Len(vars2) |-> A([op |-> "propeq", a |-> vars2[k], b |-> base])]
  \o [k \in 1 .. 3 |-> A([op |-> "propeq", a |-> [sigma |-> mu], b |-> [sigma |-> IF k = 1 THEN mu ELSE IF k = 2 THEN mu (+) RQ(1, 1024) ELSE R(0) (-) mu]])]

Script(name, c) == FinishWith(name \o ToString(run), c) /\ UNCHANGED mvars
Init == MInit /\ GenInit(IF Family = "orders" THEN OrdRuns ELSE 0 .. Count - 1)
Next == ~fin /\ CASE Family = "orders" -> Script("ord", OrdCmds)
                  [] Family = "fix" -> FixStep
                  [] Family = "solve" -> Script("solve", SolveCmds)
                  [] Family = "expr" -> ExprStep
                  [] Family = "matrix" -> Script("matrix", MatrixCmds)
                  [] Family = "curves" -> Script("curve", CurveCmds)
Spec == Init /\ [][Next]_vars
=============================================================================
