--------------------------- MODULE Gen_SparseStore ---------------------------
\* Scenarios for C01 and C02.
\*  Family "patterns": every sparsity pattern of orders 1..3, compressed and multiplied.
\*  Family "history":  random construction histories of random orders.
\*  Family "dense":    matrices with most of their entries.
\*  Family "kernels":  vector kernels for every length, function and aliasing.
EXTENDS SparseStore, Gen
vars == <<svars, gvars>>

A(c) == c @@ [g |-> "alg"]
\* values: dyadic and not, both signs, zero, tiny, huge
Pool == <<RQ(1, 1), RQ(-1, 1), RQ(3, 2), RQ(-5, 4), RQ(7, 1), R(0), RQ(-1, 8), RQ(12345, 16), TenTo(-30), TenTo(20), RQ(1, 3), RQ(-22, 7)>>
Vec(tag, n) == TLCEval([k \in 1 .. n |-> IF Chance(<<tag, k, "z">>, 15) THEN R(0) ELSE PickR(<<tag, k>>, -40, 40, 8)])
RECURSIVE KeepPairs(_, _), CatAll(_)
KeepPairs(q, S) == IF q = <<>> THEN <<>> ELSE (IF Head(q) \in S THEN <<Head(q)>> ELSE <<>>) \o KeepPairs(Tail(q), S)
CatAll(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o CatAll(Tail(q))
Kinds == <<"sym", "lower", "upper">>

\* ---- patterns: a run is a pattern, entry (a, b) of the order-3 upper triangle being bit PB
PB == <<<<0, 0>>, <<1, 1>>, <<2, 2>>, <<0, 1>>, <<0, 2>>, <<1, 2>>>>
HasBit(n, k) == (n \div 2 ^ (k - 1)) % 2 = 1
PatternOf(r) == {PB[k] : k \in {k \in 1 .. 6 : HasBit(r % 64, k)}}
OrderOf(r) == r \div 64
PatRuns == {r \in 64 .. 255 : \A p \in PatternOf(r) : p[2] < OrderOf(r)}
PatStep ==
  LET left == PatternOf(run) \ DOMAIN ent IN
  IF cmds = <<>> THEN New(OrderOf(run)) /\ Cmd(A([op |-> "coo", m |-> OrderOf(run)]))
  ELSE IF left # {} THEN
    LET p == CHOOSE p \in left : \A q \in left : p = q \/ Before(q, p) v == RQ(3 * p[1] - 5 * p[2] + 2, 2) IN
    Store(p[1], p[2], v) /\ Cmd(A([op |-> "set", i |-> p[1], j |-> p[2], v |-> v]))
  ELSE IF view.m = 0 THEN Compress /\ Cmd(A([op |-> "compress"]))
  ELSE /\ FinishWith("pat" \o ToString(run), [k \in 1 .. 3 |-> A([op |-> "mult", kind |-> Kinds[k], x |-> [q \in 1 .. m |-> RQ(2 * q + 1, 4)], fill |-> RQ(k - 2, 1)])]
            \o [k \in 1 .. 3 * m |-> A([op |-> "mult", kind |-> Kinds[1 + (k % 3)], x |-> [q \in 1 .. m |-> IF q = 1 + ((k \div 3) % m) THEN R(0) ELSE RQ(3 - 2 * q, 4)], fill |-> R(9)])])
       /\ UNCHANGED svars

\* ---- history
Depth == 10 + 2 * (run % 12)
HistStep ==
  IF cmds = <<>> THEN LET k == 1 + Pick("m", 3 + (run % 9)) IN New(k) /\ Cmd(A([op |-> "coo", m |-> k]))
  ELSE IF Len(cmds) >= Depth THEN
       /\ UNCHANGED svars
       /\ FinishWith("hist" \o ToString(run), <<A([op |-> "compress"])>> \o [k \in 1 .. 3 |-> A([op |-> "mult", kind |-> Kinds[k], x |-> Vec(k, m), fill |-> RQ(k - 2, 1)])])
  ELSE LET a == Pick("a", m) b == Pick("b", m) lo == IF a <= b THEN a ELSE b hi == IF a <= b THEN b ELSE a
           w == Pick("what", 100) v == RRound(Of("v", Pool)) IN
       CASE w < 40 -> Store(lo, hi, v) /\ Cmd(A([op |-> "set", i |-> lo, j |-> hi, v |-> v]))
         [] w >= 40 /\ w < 70 -> Accumulate(lo, hi, v) /\ Cmd(A([op |-> "acc", i |-> lo, j |-> hi, v |-> v]))
         [] w >= 70 /\ w < 80 -> Read(lo, hi) /\ Cmd(A([op |-> "get", i |-> lo, j |-> hi]))
         [] w >= 80 /\ w < 88 -> IF lo # hi THEN RefuseLower(hi, lo) /\ Cmd(A([op |-> "set", i |-> hi, j |-> lo, v |-> v]))
                                            ELSE Read(lo, hi) /\ Cmd(A([op |-> "get", i |-> lo, j |-> hi]))
         [] OTHER -> Compress /\ Cmd(A([op |-> "compress"]))

\* ---- dense: orders 2 .. 20, entries in a random order
DM == 2 + (run % 19)
DenseStep ==
  LET full == Of("full", <<100, 90, 60>>)
      here(a, b) == Chance(<<"in", a, b>>, full)
      val(a, b) == RQ(1 + Pick(<<"v", a, b>>, 60), 4)
      up == {p \in (0 .. DM - 1) \X (0 .. DM - 1) : p[1] <= p[2] /\ here(p[1], p[2])}
      row(a) == KeepPairs([k \in 1 .. DM |-> <<a, k - 1>>], up)
      E == CatAll([a \in 1 .. DM |-> row(IF run % 2 = 0 THEN a - 1 ELSE DM - a)]) IN
  /\ UNCHANGED svars
  /\ FinishWith("dense" \o ToString(run), <<A([op |-> "coo", m |-> DM])>> \o [k \in 1 .. Len(E) |-> A([op |-> "set", i |-> E[k][1], j |-> E[k][2], v |-> val(E[k][1], E[k][2])])]
       \o <<A([op |-> "compress"])>> \o [k \in 1 .. 3 |-> A([op |-> "mult", kind |-> Kinds[k], x |-> Vec(k, DM), fill |-> RQ(k - 2, 1)])])
\* ---- kernels
Fs == <<"scale", "mulv", "addv", "subv", "divd", "divv", "subd", "addd", "addscaled", "copy">>
Rs == <<"dot", "norm", "sq", "isnan", "enorm", "isnan", "isnan">>
NonZero(v) == [k \in DOMAIN v |-> IF REq(v[k], 0) THEN RQ(3, 8) ELSE v[k]]
KernStep ==
  LET n == 1 + (run % 19) IN
  /\ UNCHANGED svars
  /\ FinishWith("kern" \o ToString(run),
       [q \in 1 .. 3 * Len(Fs) |-> LET f == Fs[1 + (q - 1) \div 3] al == <<"none", "a", "b">>[1 + (q % 3)] IN
          A([op |-> "vec", f |-> f, alias |-> al, d |-> RRound(PickR(<<"d", q>>, 1, 30, 7)), a |-> Vec(<<"va", q>>, n), b |-> NonZero(Vec(<<"vb", q>>, n))])]
       \o [q \in 1 .. Len(Rs) |-> LET v == Vec(<<"ra", q>>, n) IN
          A([op |-> "red", f |-> Rs[q], b |-> Vec(<<"rb", q>>, n),
             a |-> IF q = 6 THEN [v EXCEPT ![1 + Pick("pos", n)] = RDiv(0, 0)] ELSE IF q = 7 THEN [v EXCEPT ![1 + Pick("pos", n)] = RDiv(1, 0)] ELSE v])]
       \o [q \in 1 .. 3 |-> LET nan == 1 + Pick(<<"nn", q>>, 9) IN
          A([op |-> "nanmat", m |-> n, A |-> [k \in 1 .. n + (n \div 2) |-> LET i == IF k <= n THEN k - 1 ELSE 2 * (k - n) - 2 IN <<i, IF k <= n THEN i ELSE i + 1, IF k = nan \/ (q = 1 /\ k = n + (n \div 2)) THEN RDiv(0, 0) ELSE IF k % 5 = 4 THEN RDiv(1, 0) ELSE RQ(k, 2)>>]])])

Init == SInit /\ GenInit(IF Family = "patterns" THEN PatRuns ELSE 1 .. Count)
Next == ~fin /\ CASE Family = "patterns" -> PatStep
                  [] Family = "history" -> HistStep
                  [] Family = "dense" -> DenseStep
                  [] Family = "kernels" -> KernStep
Spec == Init /\ [][Next]_vars
=============================================================================
