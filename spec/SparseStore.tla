----------------------------- MODULE SparseStore -----------------------------
(***************************************************************************)
(* A symmetric matrix built entry by entry and compressed (C01), and the   *)
(* products with its three views (C02).                                    *)
(* lib/nikfemm/src/algebra/coo.hpp, csr.cpp, math.cpp                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, ExactReal

VARIABLES m,     \* order
          ent,   \* entries written so far: <<i, j>> with i <= j |-> value
          view   \* the entries as of the last compression

svars == <<m, ent, view>>
NoView == [m |-> 0, ent |-> <<>>]
Idx == 0 .. m - 1

At(e, a, b) == LET p == IF a <= b THEN <<a, b>> ELSE <<b, a>> IN IF p \in DOMAIN e THEN e[p] ELSE R(0)
Put(e, p, v) == TLCEval([q \in DOMAIN e \cup {p} |-> IF q = p THEN v ELSE e[q]])

SInit == m = 0 /\ ent = <<>> /\ view = NoView

New(k) == m' = k /\ ent' = <<>> /\ view' = NoView
Store(a, b, v) == a <= b /\ b < m /\ ent' = Put(ent, <<a, b>>, R(v)) /\ UNCHANGED <<m, view>>
Accumulate(a, b, v) == a <= b /\ b < m /\ ent' = Put(ent, <<a, b>>, At(ent, a, b) (+) v) /\ UNCHANGED <<m, view>>
Read(a, b) == a <= b /\ b < m /\ ent' = Put(ent, <<a, b>>, At(ent, a, b)) /\ UNCHANGED <<m, view>>
RefuseLower(a, b) == b < a /\ UNCHANGED svars
Compress == m > 0 /\ view' = [m |-> m, ent |-> ent] /\ UNCHANGED <<m, ent>>

(* ---- the matrix a view denotes, and its product with a vector ---- *)
Denoted(vw, kind, a, b) == IF (kind = "upper" /\ a > b) \/ (kind = "lower" /\ a < b) THEN R(0) ELSE At(vw.ent, a, b)
Product(vw, kind, x) == TLCEval([a \in 1 .. vw.m |-> RSum([b \in 1 .. vw.m |-> Denoted(vw, kind, a - 1, b - 1) (.) x[b]])])
\* sum of magnitudes: the scale rounding errors are measured against
ProductScale(vw, kind, x) == TLCEval([a \in 1 .. vw.m |-> RSum([b \in 1 .. vw.m |-> RAbs(Denoted(vw, kind, a - 1, b - 1) (.) x[b])])])

(* ---- design: compressed rows.  Off-diagonal entries sorted by row, then column; the diagonal apart. ---- *)
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET f == CHOOSE p \in S : \A q \in S \ {p} : Before(p, q) IN <<f>> \o Sorted(S \ {f})
Csr(vw) == LET off == Sorted({p \in DOMAIN vw.ent : p[1] # p[2]})
           IN [ptr  |-> [a \in 0 .. vw.m |-> Cardinality({p \in DOMAIN vw.ent : p[1] # p[2] /\ p[1] < a})],
               col  |-> [k \in 0 .. Len(off) - 1 |-> off[k + 1][2]],
               val  |-> [k \in 0 .. Len(off) - 1 |-> vw.ent[off[k + 1]]],
               diag |-> [a \in 0 .. vw.m - 1 |-> At(vw.ent, a, a)]]
RECURSIVE CsrAt(_, _, _)
CsrAt(c, a, b) == IF a > b THEN CsrAt(c, b, a) ELSE IF a = b THEN c.diag[a]
                  ELSE LET K == {k \in c.ptr[a] .. c.ptr[a + 1] - 1 : c.col[k] = b} IN IF K = {} THEN R(0) ELSE c.val[CHOOSE k \in K : TRUE]
\* the products as they are computed row by row from the compressed form
CsrProduct(c, n, kind, x) ==
  LET gather(a) == RSum([k \in 1 .. c.ptr[a + 1] - c.ptr[a] |-> c.val[c.ptr[a] + k - 1] (.) x[c.col[c.ptr[a] + k - 1] + 1]])
      col(k) == CHOOSE a \in 0 .. n - 1 : c.ptr[a] <= k /\ k < c.ptr[a + 1]
      scatter(b) == RSum([k \in 1 .. c.ptr[n] |-> IF c.col[k - 1] = b THEN c.val[k - 1] (.) x[col(k - 1) + 1] ELSE R(0)])
  IN [a \in 1 .. n |-> c.diag[a - 1] (.) x[a] (+) (IF kind # "lower" THEN gather(a - 1) ELSE R(0)) (+) (IF kind # "upper" THEN scatter(a - 1) ELSE R(0))]

(* ---- what C01 and C02 claim of the design ---- *)
UpperOnly == \A p \in DOMAIN ent : p[1] <= p[2] /\ p[1] \in Idx /\ p[2] \in Idx
CompressionFaithful == view.m > 0 => LET c == TLCEval(Csr(view)) IN \A a, b \in 0 .. view.m - 1 : CsrAt(c, a, b) \doteq At(view.ent, a, b) /\ CsrAt(c, a, b) \doteq CsrAt(c, b, a)
Probe(n) == [a \in 1 .. n |-> RQ(2 * a - 3, 1)]
ProductsDenote == view.m > 0 => LET c == TLCEval(Csr(view)) IN
  \A kind \in {"sym", "lower", "upper"} : LET y == CsrProduct(c, view.m, kind, Probe(view.m)) z == Product(view, kind, Probe(view.m)) IN \A a \in 1 .. view.m : y[a] \doteq z[a]

(* ---- vector kernels ---- *)
Kernel(f, a, b, d) ==
  TLCEval([k \in 1 .. Len(a) |->
    CASE f = "scale" -> d (.) a[k]
      [] f = "mulv" -> a[k] (.) b[k]
      [] f = "addv" -> a[k] (+) b[k]
      [] f = "subv" -> a[k] (-) b[k]
      [] f = "divd" -> a[k] (/) d
      [] f = "divv" -> a[k] (/) b[k]
      [] f = "subd" -> a[k] (-) d
      [] f = "addd" -> a[k] (+) d
      [] f = "addscaled" -> a[k] (+) (d (.) b[k])
      [] f = "copy" -> R(a[k])])
KernelScale(f, a, b, d, k) == CASE f = "addscaled" -> RAbs(a[k]) (+) RAbs(d (.) b[k])
                                [] f \in {"addv", "subv"} -> RAbs(a[k]) (+) RAbs(b[k])
                                [] f \in {"addd", "subd"} -> RAbs(a[k]) (+) RAbs(d)
                                [] OTHER -> RAbs(Kernel(f, <<a[k]>>, <<b[k]>>, d)[1])
=============================================================================
