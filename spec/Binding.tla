------------------------------- MODULE Binding -------------------------------
(***************************************************************************)
(* The Python interface.  A call is a name and a sequence of arguments,    *)
(* each [k |-> kind, v |-> value].  Calls with the right arguments are     *)
(* operations of the library; the others raise an exception and are none.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, ExactReal
IsNum(a) == a.k \in {"int", "float"}
IsPair(a) == a.k = "list" /\ Len(a.v) = 2 /\ IsNum(a.v[1]) /\ IsNum(a.v[2])
IsOutline(a) == a.k = "list" /\ \A i \in 1 .. Len(a.v) : IsPair(a.v[i])
\* one of n layers, numbered from 0
IsLayer(a, n) == a.k = "int" /\ a.v >= 0 /\ a.v < n
\* have: whether a system has been generated for the simulation
IsSystem(a, who, have) == a.k = "system" /\ a.v = who /\ have
Num(a) == IF a.k = "int" THEN R(a.v) ELSE R(a.v)
Pair(a) == <<Num(a.v[1]), Num(a.v[2])>>
Opt(args, k, default) == IF Len(args) >= k THEN args[k] ELSE default
DRefine == [k |-> "bool", v |-> TRUE]
DArea == [k |-> "int", v |-> 1]
DAngle == [k |-> "int", v |-> 33]
Right(f, x, who, n, have) ==
  CASE f = "new" -> Len(x) = 2 /\ x[1].k = "int" /\ x[2].k = "list" /\ x[1].v = Len(x[2].v) /\ \A i \in 1 .. Len(x[2].v) : IsNum(x[2].v[i])
    [] f = "draw_rectangle" -> Len(x) = 3 /\ IsPair(x[1]) /\ IsPair(x[2]) /\ IsLayer(x[3], n)
    [] f = "draw_polygon" -> Len(x) = 2 /\ IsOutline(x[1]) /\ IsLayer(x[2], n)
    [] f = "draw_region" -> Len(x) = 3 /\ IsPair(x[1]) /\ IsNum(x[2]) /\ IsLayer(x[3], n)
    [] f = "add_interconnection" -> Len(x) = 5 /\ IsPair(x[1]) /\ IsPair(x[2]) /\ IsLayer(x[3], n) /\ IsLayer(x[4], n) /\ IsNum(x[5])
    [] f = "generate_system" -> Len(x) <= 3 /\ Opt(x, 1, DRefine).k = "bool" /\ IsNum(Opt(x, 2, DArea)) /\ IsNum(Opt(x, 3, DAngle))
    [] f = "set_voltage" -> Len(x) = 4 /\ IsSystem(x[1], who, have) /\ IsPair(x[2]) /\ IsNum(x[3]) /\ IsLayer(x[4], n)
    [] f = "solve" -> Len(x) = 1 /\ IsSystem(x[1], who, have)
    [] OTHER -> FALSE
\* the operations of the library that a call stands for
Lib(f, x) ==
  CASE f = "new" -> <<[op |-> "new", kind |-> "mul", n |-> x[1].v, depths |-> [i \in 1 .. Len(x[2].v) |-> Num(x[2].v[i])]]>>
    [] f = "draw_rectangle" -> <<[op |-> "rect", p |-> Pair(x[1]), q |-> Pair(x[2]), layer |-> x[3].v]>>
    [] f = "draw_polygon" -> <<[op |-> "poly", how |-> "vec", pts |-> [i \in 1 .. Len(x[1].v) |-> Pair(x[1].v[i])], layer |-> x[2].v]>>
    [] f = "draw_region" -> <<[op |-> "region", p |-> Pair(x[1]), prop |-> Num(x[2]), layer |-> x[3].v]>>
    [] f = "add_interconnection" -> <<[op |-> "connect", p1 |-> Pair(x[1]), p2 |-> Pair(x[2]), l1 |-> x[3].v, l2 |-> x[4].v, R |-> Num(x[5])]>>
    [] f = "generate_system" -> <<[op |-> "gen", refine |-> Opt(x, 1, DRefine).v, area |-> Num(Opt(x, 2, DArea)), angle |-> RFloor(Num(Opt(x, 3, DAngle)))]>>
    [] f = "set_voltage" -> <<[op |-> "setv", p |-> Pair(x[2]), V |-> Num(x[3]), layer |-> x[4].v]>>
    [] f = "solve" -> <<[op |-> "solve"], [op |-> "power"]>>
=============================================================================
