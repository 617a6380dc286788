-------------------------- MODULE Trace_SparseStore --------------------------
\* Recorded construction histories, products and kernels against SparseStore.
EXTENDS SparseStore, Replay

vars == <<svars, rvars>>
Init == SInit /\ ReplayInit

\* every stored entry shows at its place and nothing else does (the storage may hold explicit zeros)
StoreShows(e, A) == /\ \A k \in 1 .. Len(A) : A[k][1] <= A[k][2] /\ A[k][3] \doteq At(e, A[k][1], A[k][2])
                    /\ \A p \in DOMAIN e : REq(e[p], 0) \/ \E k \in 1 .. Len(A) : A[k][1] = p[1] /\ A[k][2] = p[2]
Tol(e, p) == IF p \in DOMAIN e THEN e[p] ELSE R(0)
\* accumulated values carry rounding errors; take over the library's own value when it is within tolerance
Adopt(e, p, A) == LET K == {k \in 1 .. Len(A) : A[k][1] = p[1] /\ A[k][2] = p[2]} IN IF K = {} THEN e ELSE Put(e, p, A[CHOOSE k \in K : TRUE][3])
Shown(A, p) == LET K == {k \in 1 .. Len(A) : A[k][1] = p[1] /\ A[k][2] = p[2]} IN IF K = {} THEN R(0) ELSE A[CHOOSE k \in K : TRUE][3]

TNew == IsReturn("coo") /\ New(Ev.c.m) /\ Chk("C01", "a new matrix holds nothing", StoreShows(<<>>, Ev.r.A))
TSet == IsEvent("set") /\ Ev.c.i <= Ev.c.j /\ MustReturn /\ Store(Ev.c.i, Ev.c.j, Ev.c.v) /\ Chk("C01", "store", StoreShows(ent', Ev.r.A))
TAcc == /\ IsReturn("acc") /\ Ev.c.i <= Ev.c.j
        /\ LET p == <<Ev.c.i, Ev.c.j>> o == At(ent, p[1], p[2]) s == Shown(Ev.r.A, p) IN
           /\ Chk("C01", "accumulate", NearRel(s, o (+) Ev.c.v, RAbs(o) (+) RAbs(Ev.c.v), RQ(1, 1000000000) (.) E6))
           /\ ent' = Put(ent, p, s) /\ UNCHANGED <<m, view>>
        /\ Chk("C01", "accumulate elsewhere", StoreShows(ent', Ev.r.A))
TGet == IsReturn("get") /\ Read(Ev.c.i, Ev.c.j) /\ Chk("C01", "read", Ev.r.v \doteq At(ent, Ev.c.i, Ev.c.j))
TRefuse == /\ IsEvent("set") /\ RefuseLower(Ev.c.i, Ev.c.j)
           /\ Chk("C01", "a write below the diagonal is refused", Refused)
Dense(M, n) == Len(M) = n /\ \A a \in 1 .. n : Len(M[a]) = n
Same(M, e, n) == Dense(M, n) /\ \A a, b \in 1 .. n : M[a][b] \doteq At(e, a - 1, b - 1)
Half(M, e, n) == Dense(M, n) /\ \A a, b \in 1 .. n : a <= b => M[a][b] \doteq At(e, a - 1, b - 1)
TCompress == /\ IsReturn("compress") /\ Compress
             /\ Chk("C01", "order kept", Ev.r.m = m)
             /\ Chk("C01", "compressed", Same(Ev.r.M, ent, m))
             /\ Chk("C01", "copied", Same(Ev.r.copy, ent, m))
             /\ Chk("C01", "lower view", Same(Ev.r.lower, ent, m) /\ Same(Ev.r.lower2, ent, m))
             /\ Chk("C01", "upper view", Same(Ev.r.upper, ent, m) /\ Same(Ev.r.upper2, ent, m))
             /\ Chk("C01", "file", Same(Ev.r.file, ent, m))
             /\ Chk("C01", "source kept", StoreShows(ent, Ev.r.A))
TMult == /\ IsReturn("mult") /\ UNCHANGED svars
         /\ LET x == Ev.c.x y == Product(view, Ev.c.kind, x) s == ProductScale(view, Ev.c.kind, x) IN
            /\ Chk("C02", "product with the " \o Ev.c.kind \o " view", Len(Ev.r.y) = view.m /\ \A a \in 1 .. view.m : NearRel(Ev.r.y[a], y[a], s[a], E12))
            /\ Chk("C02", "operand kept", \A a \in 1 .. view.m : Ev.r.x[a] \doteq x[a])
            /\ Chk("C02", "matrix kept", Same(Ev.r.M, view.ent, view.m))
TVec == /\ IsReturn("vec") /\ UNCHANGED svars
        /\ LET c == Ev.c y == Kernel(c.f, c.a, c.b, c.d) IN
           /\ Chk("C02", "kernel " \o c.f, Len(Ev.r.y) = Len(c.a) /\ \A k \in 1 .. Len(c.a) : NearRel(Ev.r.y[k], y[k], KernelScale(c.f, c.a, c.b, c.d, k), E12))
           /\ Chk("C02", "operand kept by " \o c.f, /\ c.alias # "a" => \A k \in 1 .. Len(c.a) : Ev.r.a[k] \doteq c.a[k]
                                                    /\ c.alias # "b" => \A k \in 1 .. Len(c.b) : Ev.r.b[k] \doteq c.b[k])
AnyNaN(a) == \E k \in 1 .. Len(a) : RNaN(a[k])
TRed == /\ IsReturn("red") /\ UNCHANGED svars
        /\ LET c == Ev.c a == c.a b == c.b v == Ev.r.v abs(x) == [k \in 1 .. Len(x) |-> RAbs(x[k])] IN
           Chk("C02", c.f, CASE c.f = "dot" -> NearRel(v, RDot(a, b), RDot(abs(a), abs(b)), E12)
                             [] c.f = "sq" -> NearRel(v, RDot(a, a), RDot(a, a), E12)
                             [] c.f = "norm" -> RFin(v) /\ RLe(0, v) /\ NearRel(v (.) v, RDot(a, a), RDot(a, a), E12)
                             [] c.f = "isnan" -> v = AnyNaN(a)
                             [] c.f = "enorm" -> Len(v) = Len(a) /\ \A k \in 1 .. Len(a) : LET q == (a[k] (.) a[k]) (+) (b[k] (.) b[k]) IN RLe(0, v[k]) /\ NearRel(v[k] (.) v[k], q, q, E12))
        /\ Chk("C02", "operands kept by " \o Ev.c.f, \A k \in 1 .. Len(Ev.c.a) : (RNaN(Ev.c.a[k]) /\ RNaN(Ev.r.a[k])) \/ Ev.r.a[k] \doteq Ev.c.a[k])

TNanMat == /\ IsReturn("nanmat") /\ UNCHANGED svars
           /\ Chk("C02", "NaN in a matrix", Ev.r.v = \E k \in 1 .. Len(Ev.c.A) : RNaN(Ev.c.A[k][3]))
           /\ Chk("C02", "NaN test", \A k \in 1 .. Len(Ev.c.A) : (Ev.r.one[k] \doteq 1) = RNaN(Ev.c.A[k][3]))
Next == TNanMat \/ TNew \/ TSet \/ TAcc \/ TGet \/ TRefuse \/ TCompress \/ TMult \/ TVec \/ TRed \/ (Accept /\ UNCHANGED svars)
Spec == Init /\ [][Next]_vars
=============================================================================
