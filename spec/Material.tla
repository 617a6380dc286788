------------------------------- MODULE Material -------------------------------
(***************************************************************************)
(* Material-dependent expressions and matrices (C05), magnetisation curves *)
(* and equality of materials (C06), on top of LinSystem.                   *)
(* lib/nikfemm/src/algebra/non_linear.*, magnetostatic/properties.*        *)
(***************************************************************************)
EXTENDS LinSystem

VARIABLES reg,    \* register |-> expression
          sealed  \* system whose material-dependent matrix was compressed last ("" : none)
mvars == <<lvars, reg, sealed>>

MInit == LInit /\ reg = <<>> /\ sealed = ""
Reg(n) == IF n \in DOMAIN reg THEN reg[n] ELSE Zero

\* register operations: f, target t, register u, real v, element k
ExprOp(f, t, u, v, k) ==
  /\ reg' = With(reg, t, CASE f = "setd" -> K(v)
                           [] f = "sete" -> Reg(u)
                           [] f = "addd" -> XAdd(Reg(t), K(v))
                           [] f = "subd" -> XSub(Reg(t), K(v))
                           [] f = "addt" -> XAdd(Reg(t), Term(v, k))
                           [] f = "subt" -> XSub(Reg(t), Term(v, k))
                           [] f = "adde" -> XAdd(Reg(t), Reg(u))
                           [] f = "sube" -> XSub(Reg(t), Reg(u))
                           [] f = "mul" -> XScale(Reg(u), v))
  /\ UNCHANGED <<lvars, sealed>>
Seal(n) == n \in DOMAIN sys /\ sealed' = n /\ UNCHANGED <<lvars, reg>>
\* Evaluation reads the current permeabilities and changes nothing: it does not depend on earlier evaluations.
Evaluate == sealed # "" /\ UNCHANGED mvars

(* ---- magnetisation curves: a set of <<B, H>> with distinct B ---- *)
Below(S, q) == {p \in S : RLt(p[1], q[1])}
RECURSIVE ByB(_)
ByB(S) == IF S = {} THEN <<>> ELSE LET f == CHOOSE p \in S : \A q \in S : q = p \/ RLt(p[1], q[1]) IN <<f>> \o ByB(S \ {f})
Slope(p, q) == (q[1] (-) p[1]) (/) (q[2] (-) p[2])
\* permeabilities allowed at field B: the slope of a segment whose field interval contains B (either one at an inner point)
Permeabilities(curve, mu, B) ==
  IF curve = {} THEN {R(mu)}
  ELSE LET c == ByB(curve) n == Len(c) IN
       IF n = 1 THEN {}                                                   \* refused
       ELSE IF RLt(B, c[1][1]) THEN {Slope(c[1], c[2])}
       ELSE IF RLt(c[n][1], B) THEN {Slope(c[n - 1], c[n])}
       ELSE {Slope(c[k], c[k + 1]) : k \in {k \in 1 .. n - 1 : RLe(c[k][1], B) /\ RLe(B, c[k + 1][1])}}
\* the search as it is carried out: the first point not below B closes the active segment
ActiveSlope(curve, B) ==
  LET c == ByB(curve) n == Len(c) ge == {k \in 1 .. n : RLe(B, c[k][1])}
      k == IF ge = {} THEN n ELSE CHOOSE k \in ge : \A q \in ge : k <= q
  IN IF k = 1 THEN Slope(c[1], c[2]) ELSE Slope(c[k - 1], c[k])

PtSame(p, q) == p[1] \doteq q[1] /\ p[2] \doteq q[2]
CurveSame(a, b) == (\A p \in a : \E q \in b : PtSame(p, q)) /\ (\A q \in b : \E p \in a : PtSame(p, q))
MaterialSame(a, b) == a.J \doteq b.J /\ PtSame(a.M, b.M) /\ a.mu \doteq b.mu /\ CurveSame(a.bh, b.bh)
=============================================================================
