--------------------------- MODULE Trace_LinSystem ---------------------------
\* Recorded prescriptions, solutions, expressions, material-dependent matrices and curves against LinSystem and Material.
EXTENDS Material, Replay
VARIABLE mat    \* the matrix being stored and its compressed form (see SparseStore, which owns C01): pair |-> value
vars == <<mvars, rvars, mat>>
Init == MInit /\ ReplayInit /\ mat = [m |-> 0, e |-> <<>>]

Name == IF "o" \in DOMAIN Ev.c THEN Ev.c.o ELSE "a"
Shown(A, p) == LET Q == {k \in 1 .. Len(A) : A[k][1] = p[1] /\ A[k][2] = p[2]} IN IF Q = {} THEN R(0) ELSE A[CHOOSE k \in Q : TRUE][3]
NoMu == <<>>
MuOf == IF "mu" \in DOMAIN Ev.c THEN Ev.c.mu ELSE NoMu
\* magnitude of the terms that go into row i: the scale of its rounding errors
Mag(s, i, mu) == XScaleOf(s.b0[i], mu) (+) RSum([k \in 1 .. s.m |-> IF k - 1 \in DOMAIN s.fixed THEN XScaleOf(XScale(Ent(s.A0, i, k - 1), s.fixed[k - 1]), mu) ELSE R(0)]) (+) 1
ShowsA(r, s, mu) == /\ r.m = s.m
                    /\ \A k \in 1 .. Len(r.A) : r.A[k][1] <= r.A[k][2] /\ r.A[k][2] < s.m
                    /\ \A p \in {p \in Rows(s) \X Rows(s) : p[1] <= p[2]} :
                         LET x == ConstrainedA(s, s.fixed, p[1], p[2]) IN NearRel(Shown(r.A, p), XEval(x, mu), XScaleOf(x, mu), E12)
ShowsB(r, s, mu) == /\ Len(r.b) = s.m
                    /\ \A q \in Rows(s) : IF q \in DOMAIN s.fixed THEN r.b[q + 1] \doteq s.fixed[q] ELSE NearRel(r.b[q + 1], XEval(ConstrainedB(s, s.fixed, q), mu), Mag(s, q, mu), E12)

Exprs(L) == TLCEval([p \in {<<L[k][1], L[k][2]>> : k \in 1 .. Len(L)} |-> LET k == CHOOSE k \in 1 .. Len(L) : <<L[k][1], L[k][2]>> = p IN
              [c |-> L[k][3], t |-> IF Len(L[k]) > 3 THEN L[k][4] ELSE <<>>]])
TSys == /\ IsReturn("sys") \/ IsReturn("nls")
        /\ NewSystem(Name, Ev.c.m, Exprs(Ev.c.A), TLCEval([q \in 0 .. Ev.c.m - 1 |-> K(Ev.c.b[q + 1])]))
        /\ UNCHANGED <<reg, sealed, mat>>
        /\ Chk("C03", "system as assembled", ShowsA(Ev.r.s, sys'[Name], MuOf) /\ ShowsB(Ev.r.s, sys'[Name], MuOf))
        /\ Chk("C05", "system as assembled", ShowsA(Ev.r.s, sys'[Name], MuOf) /\ ShowsB(Ev.r.s, sys'[Name], MuOf))
TFix == /\ IsReturn("fix") /\ Prescribe(Name, Ev.c.id, Ev.c.v) /\ UNCHANGED <<reg, sealed, mat>>
        /\ Chk("C03", "matrix of the constrained problem", ShowsA(Ev.r.s, sys'[Name], MuOf))
        /\ Chk("C03", "right-hand side of the constrained problem", ShowsB(Ev.r.s, sys'[Name], MuOf))
TCopy == /\ IsReturn("syscopy") /\ CopySystem(Name, Ev.c.to) /\ UNCHANGED <<reg, sealed, mat>>
         /\ Chk("C03", "copy", ShowsA(Ev.r.s, sys'[Ev.c.to], NoMu) /\ ShowsB(Ev.r.s, sys'[Ev.c.to], NoMu))

TCoo == IsReturn("coo") /\ mat' = [m |-> Ev.c.m, e |-> <<>>] /\ UNCHANGED mvars
TSet == IsReturn("set") /\ mat' = [mat EXCEPT !.e = With(mat.e, <<Ev.c.i, Ev.c.j>>, Ev.c.v)] /\ UNCHANGED mvars
TCompress == IsReturn("compress") /\ UNCHANGED <<mvars, mat>>
DenseOf == TLCEval([a \in 1 .. mat.m |-> TLCEval([b \in 1 .. mat.m |-> LET p == Up(a - 1, b - 1) IN IF p \in DOMAIN mat.e THEN R(mat.e[p]) ELSE R(0)])])
TSolve == /\ IsReturn("lsolve") /\ UNCHANGED <<mvars, mat>>
          /\ LET D == DenseOf IN
             /\ Chk("C04", Ev.c.solver \o " solves", Solves(D, Ev.c.b, Ev.r.x, Ev.c.tol))
             /\ Chk("C04", "right-hand side kept by " \o Ev.c.solver, \A k \in 1 .. Len(Ev.c.b) : Ev.r.b[k] \doteq Ev.c.b[k])
             /\ Chk("C04", "matrix kept by " \o Ev.c.solver, \A a, b \in 1 .. mat.m : Ev.r.M[a][b] \doteq D[a][b])

TExpr == /\ IsReturn("ex") /\ ExprOp(Ev.c.f, Ev.c.t, Ev.c.u, Ev.c.v, Ev.c.k) /\ UNCHANGED mat
         /\ \A k \in 1 .. Len(Ev.r.v) :
              LET x == IF Ev.r.v[k][1] \in DOMAIN reg' THEN reg'[Ev.r.v[k][1]] ELSE Zero IN
              Chk("C05", "value of an expression after " \o Ev.c.f, NearRel(Ev.r.v[k][2], XEval(x, Ev.c.mu), XScaleOf(x, Ev.c.mu) (+) 1, E12))
         /\ Chk("C05", "every register shown", \A n \in DOMAIN reg' : \E k \in 1 .. Len(Ev.r.v) : Ev.r.v[k][1] = n)
TSeal == IsReturn("nlcompress") /\ Seal(Name) /\ UNCHANGED mat /\ Chk("C05", "order kept", Ev.r.m = sys[Name].m)
TEval == /\ IsReturn("nleval") /\ Evaluate /\ UNCHANGED mat
         /\ LET s == sys[sealed] mu == Ev.c.mu IN
            /\ Chk("C05", "matrix at the current permeabilities", Len(Ev.r.M) = s.m /\ \A a, b \in Rows(s) : LET x == ConstrainedA(s, s.fixed, a, b) IN NearRel(Ev.r.M[a + 1][b + 1], XEval(x, mu), XScaleOf(x, mu), E12))
            /\ Chk("C05", "source kept by evaluation", ShowsA(Ev.r.s, s, mu) /\ ShowsB(Ev.r.s, s, mu))
            /\ Chk("C05", "permeabilities kept", \A k \in 1 .. Len(mu) : Ev.r.mu[k] \doteq mu[k])

BhSet(q) == {q.bh[k] : k \in 1 .. Len(q.bh)}
TBh == /\ IsEvent("bh") /\ UNCHANGED <<mvars, mat>>
       /\ LET q == Ev.c.prop n == Len(q.bh) IN
          IF n = 1 THEN Chk("C06", "a one-point curve is refused", Refused)
          ELSE /\ MustReturn
               /\ Chk("C06", "linear exactly without a curve", Ev.r.lin = (n = 0))
               /\ \A k \in 1 .. Len(Ev.c.B) : Chk("C06", "permeability at a field", \E s \in Permeabilities(BhSet(q), q.mu, Ev.c.B[k]) : NearRel(Ev.r.mu[k], s, RAbs(s), E12))
TPropEq == /\ IsReturn("propeq") /\ UNCHANGED <<mvars, mat>>
           /\ LET e == IF "sigma" \in DOMAIN Ev.c.a THEN Ev.c.a.sigma \doteq Ev.c.b.sigma ELSE MaterialSame([Ev.c.a EXCEPT !.bh = BhSet(Ev.c.a)], [Ev.c.b EXCEPT !.bh = BhSet(Ev.c.b)]) IN Chk("C06", "equality of materials", Ev.r.eq = e /\ Ev.r.ne = ~e)

Next == TSys \/ TFix \/ TCopy \/ TCoo \/ TSet \/ TCompress \/ TSolve \/ TExpr \/ TSeal \/ TEval \/ TBh \/ TPropEq \/ (Accept /\ UNCHANGED <<mvars, mat>>)
Spec == Init /\ [][Next]_vars
=============================================================================
