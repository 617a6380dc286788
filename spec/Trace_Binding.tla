---------------------------- MODULE Trace_Binding ----------------------------
\* C28.  Every call of the Python session is followed by the operations of the library it stands for, done directly.
EXTENDS Replay, Binding
VARIABLES layers,  \* session -> number of its layers
          have,    \* sessions with a system
          meshes,  \* session -> the meshes of its layers, from the library
          pend     \* <<event of the call, operations still to come>>
bvars == <<layers, have, meshes, pend>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == ReplayInit /\ layers = [n \in {} |-> 0] /\ have = {} /\ meshes = [n \in {} |-> 0] /\ pend = <<0, 0>>
Fine == Chk("C28", "the interpreter goes on", "crash" \notin DOMAIN Ev.r)
Raises == "exc" \in DOMAIN Ev.r
IsRight == /\ Ev.c.f = "new" \/ Ev.c.n \in DOMAIN layers
           /\ Right(Ev.c.f, Ev.c.args, Ev.c.n, IF Ev.c.n \in DOMAIN layers THEN layers[Ev.c.n] ELSE 0, Ev.c.n \in have)
TBare == /\ HasEvent /\ Ev.c.o = "py" /\ Ev.c.f = "System" /\ pend[2] = 0 /\ ti' = ti + 1 /\ UNCHANGED <<tsc, bvars>> /\ Fine
TWrong == /\ HasEvent /\ Ev.c.o = "py" /\ Ev.c.f # "System" /\ pend[2] = 0 /\ ~IsRight /\ ti' = ti + 1 /\ UNCHANGED <<tsc, bvars>> /\ Fine
          /\ Chk("C28", "wrong arguments raise an exception", Raises)
TRight == /\ HasEvent /\ Ev.c.o = "py" /\ Ev.c.f # "System" /\ pend[2] = 0 /\ IsRight /\ ti' = ti + 1 /\ UNCHANGED <<tsc, layers, have, meshes>> /\ Fine
          /\ pend' = <<ti, Len(Lib(Ev.c.f, Ev.c.args))>>
Call == Scs[tsc].ev[pend[1]]
Before(M, l) == RSum([k \in 1 .. l - 1 |-> R(Len(M[k].pts))])
RECURSIVE Offsets(_, _, _)
Offsets(M, l, s) == IF l > Len(M) THEN <<>> ELSE <<s>> \o Offsets(M, l + 1, s + Len(M[l].pts))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
Shifted(t, s) == <<t[1] + s, t[2] + s, t[3] + s>>
MeshesReturned(r, M) == LET off == TLCEval(Offsets(M, 1, 0)) pts == TLCEval(Flat([l \in 1 .. Len(M) |-> M[l].pts])) IN
  /\ r.n = 3 /\ Len(r.tris) = Len(M) /\ Len(r.pts) = Len(pts)
  /\ \A l \in 1 .. Len(M) : Len(r.tris[l]) = Len(M[l].tris) /\ \A t \in 1 .. Len(M[l].tris) : r.tris[l][t] = Shifted(M[l].tris[t], off[l])
  /\ \A i \in 1 .. Len(pts) : r.pts[i] = pts[i]
\* every vertex with its layer and place, every triangle with its layer
VerticesReturned(r, M) == LET off == TLCEval(Offsets(M, 1, 0)) IN
  /\ Len(r.v) = off[Len(M)] + Len(M[Len(M)].pts)
  /\ \A l \in 1 .. Len(M) : \A i \in 1 .. Len(M[l].pts) : LET v == r.v[off[l] + i] IN v[1] = l - 1 /\ v[2] = M[l].pts[i][1] /\ v[3] = M[l].pts[i][2]
TrianglesReturned(r, M) == LET off == TLCEval(Offsets(M, 1, 0)) all == TLCEval(Flat([l \in 1 .. Len(M) |-> [t \in 1 .. Len(M[l].tris) |-> <<l - 1>> \o Shifted(M[l].tris[t], off[l])]])) IN
  Len(r.tris) = Len(all) /\ \A t \in 1 .. Len(all) : r.tris[t] = all[t]
TLib == /\ HasEvent /\ Ev.c.o # "py" /\ pend[2] > 0 /\ ti' = ti + 1 /\ UNCHANGED tsc
        /\ Ev.c.op = Lib(Call.c.f, Call.c.args)[Len(Lib(Call.c.f, Call.c.args)) - pend[2] + 1].op
        /\ LET n == Call.c.n op == Ev.c.op r == Call.r ok == Returned raised == "exc" \in DOMAIN r IN
           /\ pend' = <<pend[1], pend[2] - 1>>
           /\ Chk("C28", "what fails in the library raises an exception", ~ok => raised)
           /\ Chk("C28", "what succeeds in the library succeeds", ok => ~raised)
           /\ IF ~ok \/ raised THEN UNCHANGED <<layers, have, meshes>>
              ELSE /\ layers' = IF op = "new" THEN With(layers, n, Ev.c.n) ELSE layers
                   /\ have' = IF op = "gen" THEN have \cup {n} ELSE IF op = "new" THEN have \ {n} ELSE have
                   /\ meshes' = IF op = "gen" THEN With(meshes, n, Ev.r.meshes) ELSE meshes
                   /\ CASE op = "gen" -> Chk("C28", "the meshes of the library", MeshesReturned(r, Ev.r.meshes))
                        [] op = "solve" -> /\ Chk("C28", "the vertices of the meshes", r.n = 3 /\ VerticesReturned(r, meshes[n]))
                                           /\ Chk("C28", "the triangles of the meshes", TrianglesReturned(r, meshes[n]))
                                           /\ Chk("C28", "the voltages of the library", Len(r.v) = Len(Ev.r.x) /\ \A i \in 1 .. Len(r.v) : r.v[i][4] = Ev.r.x[i])
                        [] op = "power" -> Chk("C28", "the power densities of the library", Len(r.p) = Len(Ev.r.P) /\ \A i \in 1 .. Len(r.p) : r.p[i][1] = i - 1 /\ r.p[i][2] = Ev.r.P[i])
                        [] op = "new" -> Chk("C28", "a simulation", r.v = "made")
                        [] OTHER -> Chk("C28", "nothing is returned", r.v = "None")
Next == TBare \/ TWrong \/ TRight \/ TLib \/ (Accept /\ pend[2] = 0 /\ UNCHANGED bvars)
Spec == Init /\ [][Next]_<<rvars, bvars>>
=============================================================================
