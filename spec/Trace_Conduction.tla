--------------------------- MODULE Trace_Conduction ---------------------------
\* Recorded conduction sessions, of one layer or several, against Conduction.
EXTENDS Conduction, Replay
VARIABLES kind,
          thick,    \* thickness of each layer
          Ms, props,\* mesh and conductivities of each layer
          rs,       \* resistors as connected: [p1, p2, l1, l2, R]
          net,      \* the network, exactly, with what has been prescribed
          seen,     \* the system as last reported: <<A, b>>
          wild,     \* a vertex was prescribed twice with different values: nothing is claimed from here
          volts     \* the last solution
vars == <<rvars, kind, thick, Ms, props, rs, net, seen, wild, volts>>
NoNet == [n |-> 0, A |-> <<>>, A0 |-> <<>>, b |-> <<>>, fixed |-> <<>>]
Init == ReplayInit /\ kind = "" /\ thick = <<>> /\ Ms = <<>> /\ props = <<>> /\ rs = <<>> /\ net = NoNet /\ seen = <<<<>>, <<>>>> /\ wild = FALSE /\ volts = <<>>
On(ps) == Focus \cap ps # {}

MeshOf(r) == TLCEval([pts |-> [k \in 1 .. Len(r.pts) |-> PAdd(r.pts[k], r.center)], tris |-> [k \in 1 .. Len(r.tris) |-> <<r.tris[k][1] + 1, r.tris[k][2] + 1, r.tris[k][3] + 1>>], attr |-> r.attr])
PropsOf(r) == TLCEval([k \in 1 .. Len(r.props) |-> R(r.props[k])])
SysA(s) == RCells(s.A)
Sigma(l, t) == props[l][Ms[l].attr[t] + 1]
Exactly(MM, pp, l) == LayerSystem(MM[l], LAMBDA t : pp[l][MM[l].attr[t] + 1], thick[l])
\* rounding grows with the slenderness of the triangles
Slender(M) == RMaxSeq([t \in Ts(M) |-> LET p == Corner3(M, t) IN RMaxSeq(<<PDist2(p[1], p[2]), PDist2(p[2], p[3]), PDist2(p[3], p[1])>>) (/) RAbs(Twice(M, t))])
SizesOf(MM) == [l \in 1 .. Len(MM) |-> Len(MM[l].pts)]
\* the vertex of layer l at p: the nearest
NodeAt(MM, l, p) == CHOOSE v \in Nearest(MM[l], p) : TRUE
Stamps(MM) == LET sz == SizesOf(MM) IN TLCEval([k \in 1 .. Len(rs) |-> <<Offset(sz, rs[k].l1 + 1) + NodeAt(MM, rs[k].l1 + 1, rs[k].p1), Offset(sz, rs[k].l2 + 1) + NodeAt(MM, rs[k].l2 + 1, rs[k].p2), R(rs[k].R)>>])
Whole(MM, pp) == LET F == TLCEval([l \in 1 .. Len(MM) |-> Exactly(MM, pp, l)]) IN F
Zero(b) == \A i \in 1 .. Len(b) : b[i] \doteq 0

TNew == /\ IsReturn("new") /\ kind' = Ev.c.kind /\ Ms' = <<>> /\ props' = <<>> /\ rs' = <<>> /\ net' = NoNet /\ seen' = <<<<>>, <<>>>> /\ wild' = FALSE /\ volts' = <<>>
        /\ thick' = IF Ev.c.kind = "mul" THEN TLCEval([l \in 1 .. Ev.c.n |-> IF "depths" \in DOMAIN Ev.c THEN R(Ev.c.depths[l]) ELSE R(1)]) ELSE <<IF "depth" \in DOMAIN Ev.c THEN R(Ev.c.depth) ELSE R(1)>>
TDraw == /\ \E op \in {"rect", "rectwh", "circle", "poly", "point", "region", "refine"} : IsReturn(op)
         /\ UNCHANGED <<kind, thick, Ms, props, rs, net, seen, wild, volts>>
TConnect == IsReturn("connect") /\ rs' = Append(rs, [p1 |-> Ev.c.p1, p2 |-> Ev.c.p2, l1 |-> Ev.c.l1, l2 |-> Ev.c.l2, R |-> Ev.c.R]) /\ UNCHANGED <<kind, thick, Ms, props, net, seen, wild, volts>>
\* a reported system against entries <<value, scale>>
SameMatrix(A, F, f) == /\ \A p \in DOMAIN F : Near(Entry(A, p[1], p[2]), F[p][1], (E12 (.) f) (.) F[p][2])
                       /\ \A p \in DOMAIN A : p[1] <= p[2] /\ (p \in DOMAIN F \/ A[p] \doteq 0)
\* C17
IsLaplacian(M, F, s) == \E A \in {SysA(s)} : \E f \in {Slender(M)} :
  /\ Chk("C17", "one equation per vertex", s.m = Len(M.pts) /\ Len(s.b) = Len(M.pts))
  /\ Chk("C17", "entries of the conduction matrix", SameMatrix(A, F, f))
  /\ Chk("C17", "zero right-hand side", Zero(s.b))
  /\ Chk("C17", "rows sum to zero", \E y \in {RowSums(A, Len(M.pts), TLCEval([i \in 1 .. Len(M.pts) |-> R(1)]))} : \A i \in 1 .. Len(M.pts) : Near(y[i][1], 0, (E12 (.) f) (.) y[i][2]))
TGenOne == /\ kind \in {"cur", "cdm"} /\ (IsReturn("gen") \/ IsReturn("mesh"))
           /\ LET MM == <<MeshOf(Ev.r.mesh)>> pp == <<PropsOf(Ev.r.d)>> IN
              /\ Ms' = MM /\ props' = pp
              /\ IF kind = "cdm" THEN UNCHANGED <<net, seen>> ELSE LET s == Ev.r.s IN \E F \in {TLCEval(Exactly(MM, pp, 1))} :
                   /\ IF On({"C17"}) THEN IsLaplacian(MM[1], F, s) ELSE TRUE
                   /\ seen' = <<SysA(s), s.b>>
                   /\ net' = (IF On({"C18"}) THEN MkSys(Len(MM[1].pts), Values(F)) ELSE NoNet)
           /\ wild' = FALSE /\ volts' = <<>> /\ UNCHANGED <<kind, thick, rs>>
TFem == /\ IsReturn("fem") /\ (IF On({"C17"}) THEN (\E F \in {Exactly(Ms, props, 1)} : IsLaplacian(Ms[1], F, Ev.r.s)) ELSE TRUE) /\ UNCHANGED <<kind, thick, Ms, props, rs, net, seen, wild, volts>>
TCot == /\ IsReturn("cot") /\ UNCHANGED <<kind, thick, Ms, props, rs, net, seen, wild, volts>>
        /\ IF ~On({"C17"}) THEN TRUE ELSE
           LET M == Ms[1] IN \E F \in {LayerSystem(M, LAMBDA t : R(1), R(1))} : \E A \in {SysA(Ev.r.s)} : \E rim \in {Rim(Directed(M))} : \E edge \in {{e[1] : e \in rim} \cup {e[2] : e \in rim}} : \E tol \in {E12 (.) (Slender(M) (.) Slender(M))} :
           /\ Chk("C17", "cotangent weights at interior vertices", \A p \in DOMAIN F : (p[1] \in edge /\ p[2] \in edge) \/ (p[1] = p[2] /\ p[1] \in edge) \/ Near(Entry(A, p[1], p[2]), RNeg(F[p][1]), (tol (.) 8) (.) (R(1) (+) F[p][2])))
           /\ Chk("C17", "zero right-hand side", Zero(Ev.r.s.b))
\* C20
\* (values bound by \E over a singleton are evaluated once)
Layered(MM, pp, r) ==
  \E sz \in {SizesOf(MM)} : \E FF \in {TLCEval(Whole(MM, pp))} : \E st \in {TLCEval(Stamps(MM))} : \E A \in {SysA(r.s)} :
  \E want \in {TLCEval(StampAll(Merged(sz, TLCEval([l \in 1 .. Len(MM) |-> Values(FF[l])])), st))} :
  \E scale0 \in {TLCEval(Merged(sz, TLCEval([l \in 1 .. Len(MM) |-> TLCEval([p \in DOMAIN FF[l] |-> FF[l][p][2]])])))} :
  \E f \in {RMaxSeq([l \in 1 .. Len(MM) |-> Slender(MM[l])])} :
  LET scale(p) == (IF p \in DOMAIN scale0 THEN scale0[p] ELSE R(0)) (+) RSum([k \in 1 .. Len(st) |-> IF {st[k][1], st[k][2]} \cap {p[1], p[2]} # {} THEN R(1) (/) st[k][3] ELSE R(0)])
  IN \E F \in {TLCEval([p \in DOMAIN want |-> <<want[p], scale(p)>>])} : LET n == Offset(sz, Len(sz) + 1)
  IN /\ Chk("C20", "one equation per vertex of every layer", r.s.m = n /\ Len(r.s.b) = n)
     /\ Chk("C20", "the ends of the interconnections are vertices", \A k \in 1 .. Len(rs) : \A e \in {<<rs[k].l1 + 1, rs[k].p1>>, <<rs[k].l2 + 1, rs[k].p2>>} :
          PNear(MM[e[1]].pts[NodeAt(MM, e[1], e[2])], e[2], E9))
     /\ Chk("C20", "layers coupled by the interconnections only", SameMatrix(A, F, f))
     /\ Chk("C20", "zero right-hand side", Zero(r.s.b))
     /\ Chk("C20", "interconnections unchanged", Len(r.ics) = Len(rs) /\ \A k \in 1 .. Len(rs) : PEq(r.ics[k].p1, rs[k].p1) /\ PEq(r.ics[k].p2, rs[k].p2) /\ r.ics[k].l1 = rs[k].l1 /\ r.ics[k].l2 = rs[k].l2 /\ r.ics[k].R \doteq rs[k].R)
TGenMul == /\ kind = "mul" /\ IsReturn("gen")
           /\ LET MM == TLCEval([l \in 1 .. Len(Ev.r.meshes) |-> MeshOf(Ev.r.meshes[l])]) pp == TLCEval([l \in 1 .. Len(Ev.r.ds) |-> PropsOf(Ev.r.ds[l])]) sz == SizesOf(MM) IN
              /\ Ms' = MM /\ props' = pp
              /\ IF On({"C20"}) THEN Layered(MM, pp, Ev.r) ELSE TRUE
              /\ seen' = <<SysA(Ev.r.s), Ev.r.s.b>>
              /\ net' = (IF On({"C18", "C21"}) THEN MkSys(Offset(sz, Len(sz) + 1), StampAll(Merged(sz, [l \in 1 .. Len(MM) |-> Values(Exactly(MM, pp, l))]), Stamps(MM))) ELSE NoNet)
           /\ wild' = FALSE /\ volts' = <<>> /\ UNCHANGED <<kind, thick, rs>>
\* C19
Layer(c) == IF kind = "mul" THEN c.layer + 1 ELSE 1
TakesPlace(A, b, A2, b2, i, v) ==
  LET n == Len(b) hit == Beside(A, i) o == TLCEval({OtherEnd(p, i) : p \in hit}) IN
  /\ \A p \in DOMAIN A \cup DOMAIN A2 : Entry(A2, p[1], p[2]) \doteq (IF p = <<i, i>> THEN R(1) ELSE IF i \in {p[1], p[2]} THEN R(0) ELSE Entry(A, p[1], p[2]))
  /\ Len(b2) = n /\ \A j \in 1 .. n : IF j = i THEN b2[j] \doteq v ELSE IF j \in o THEN LET w == Entry(A, i, j) (.) v IN Near(b2[j], b[j] (-) w, E12 (.) (RAbs(b[j]) (+) RAbs(w))) ELSE b2[j] \doteq b[j]
TSetV == /\ IsReturn("setv")
         /\ LET c == Ev.c l == Layer(c) off == Offset(SizesOf(Ms), l) A2 == SysA(Ev.r.s) b2 == Ev.r.s.b
                near == {off + v : v \in Nearest(Ms[l], c.p)}
                hit == {i \in near : Entry(A2, i, i) \doteq 1 /\ b2[i] \doteq c.V}
                i == CHOOSE i \in near : hit = {} \/ i \in hit
                clash == \E j \in near : j \in DOMAIN net.fixed /\ ~(net.fixed[j] \doteq c.V)
            IN /\ IF wild \/ clash THEN TRUE ELSE Chk("C19", "exactly the nearest vertex of the layer is fixed", \E j \in near : TakesPlace(seen[1], seen[2], A2, b2, j, c.V))
               /\ seen' = <<A2, b2>> /\ wild' = (wild \/ clash)
               /\ net' = IF On({"C18", "C21"}) THEN (IF clash THEN net ELSE Fix(net, i, c.V)) ELSE [net EXCEPT !.fixed = [j \in DOMAIN net.fixed \cup {i} |-> IF j = i THEN R(c.V) ELSE net.fixed[j]]]
         /\ volts' = <<>> /\ UNCHANGED <<kind, thick, Ms, props, rs>>
\* C18
Tol == IF kind = "cur" THEN TenTo(-12) ELSE TenTo(-7)
ReachesAll == LET nb == TLCEval([i \in 1 .. net.n |-> {OtherEnd(p, i) : p \in Beside(net.A0, i)}])
                  RECURSIVE Go(_, _) Go(S, new) == IF new = {} THEN S ELSE LET T == (UNION {nb[i] : i \in new}) \ S IN Go(S \cup T, T)
              IN DOMAIN net.fixed # {} /\ Go(DOMAIN net.fixed, DOMAIN net.fixed) = 1 .. net.n
NoPositive == \A p \in DOMAIN net.A0 : p[1] = p[2] \/ net.A0[p] \preceq 0
Weakest == RMinSeq([l \in 1 .. Len(Ms) |-> thick[l] (.) RMinSeq([t \in Ts(Ms[l]) |-> Sigma(l, t)])] \o [k \in 1 .. Len(rs) |-> R(1) (/) rs[k].R])
Slack(x) == LET y == RowSums(net.A, net.n, x) IN (((RQ(11, 10) (.) Tol) (+) (E12 (.) RMaxSeq([i \in 1 .. net.n |-> y[i][2] (+) RAbs(net.b[i])]))) (.) (1000 * net.n)) (/) RMin(R(1), Weakest)
TSolve == /\ IsReturn("solve") /\ volts' = Ev.r.x
          /\ IF wild \/ ~On({"C18"}) THEN TRUE ELSE IF ~ReachesAll THEN TRUE ELSE
             /\ Chk("C18", "voltages satisfy the prescribed problem", SolvesNet(net, Ev.r.x, Tol))
             /\ Chk("C18", "voltages within the prescribed range", NoPositive => Within(net, Ev.r.x, Slack(Ev.r.x)))
             /\ Chk("C18", "the system is unchanged", LET A == SysA(Ev.r.s) IN Ev.r.s.b = seen[2] /\ A = seen[1])
          /\ UNCHANGED <<kind, thick, Ms, props, rs, net, seen, wild>>
\* C21
Slice(x, l) == LET o == Offset(SizesOf(Ms), l) IN TLCEval([v \in Vs(Ms[l]) |-> x[o + v]])
TriOffset(l) == Offset([k \in 1 .. Len(Ms) |-> Len(Ms[k].tris)], l)
TPower == /\ IsReturn("power") /\ UNCHANGED <<kind, thick, Ms, props, rs, net, seen, wild, volts>>
          /\ IF ~On({"C21"}) THEN TRUE ELSE
             LET r == Ev.r x == r.V L == 1 .. Len(Ms) st == Stamps(Ms)
                 z == TLCEval([l \in L |-> Slice(x, l)])
                 P == TLCEval([l \in L |-> TLCEval([t \in Ts(Ms[l]) |-> r.P[TriOffset(l) + t]])])
             IN /\ Chk("C21", "one value per triangle", Len(x) = net.n /\ Len(r.P) = TriOffset(Len(Ms) + 1))
                /\ Chk("C21", "voltages unchanged", \A k \in 1 .. Len(x) : x[k] \doteq r.V2[k])
                /\ Chk("C21", "conductivity times squared field on every triangle", \A l \in L : \A t \in 1 .. Len(Ms[l].tris) : PowerIs(Ms[l], t, z[l], Sigma(l, t), P[l][t]))
                /\ Chk("C21", "losses equal the power fed in",
                     LET loss == RSum([l \in 1 .. Len(Ms) |-> LayerLoss(Ms[l], P[l], thick[l])]) (+) ResistorLoss(st, x)
                         tol == (E9 (.) FedScale(net.A0, net.n, x)) (.) RMaxSeq([l \in 1 .. Len(Ms) |-> Slender(Ms[l])])
                     IN /\ Near(loss, Fed(net.A0, net.n, x), tol)
                        /\ (volts # <<>> /\ ~wild /\ volts = x) => Near(loss, FedAtFixed(net.A0, net.n, x, DOMAIN net.fixed), tol (+) ((RQ(11, 10) (.) Tol) (.) RSum([k \in 1 .. net.n |-> RAbs(x[k])]))))
Next == TNew \/ TDraw \/ TConnect \/ TGenOne \/ TGenMul \/ TFem \/ TCot \/ TSetV \/ TSolve \/ TPower \/ (Accept /\ UNCHANGED <<kind, thick, Ms, props, rs, net, seen, wild, volts>>)
Spec == Init /\ [][Next]_vars
=============================================================================
