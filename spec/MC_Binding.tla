----------------------------- MODULE MC_Binding -----------------------------
(***************************************************************************)
(* The Python interface over an abstract simulation: layers that hold what *)
(* was drawn on them, resistors, a system.  All sequences of up to DEPTH   *)
(* calls, each with right and wrong arguments.  Whatever is called, the    *)
(* simulation is the one the right calls alone would have made (Same), it  *)
(* never refers to layers it does not have (Whole), and prescribing and    *)
(* solving happen only with a system of this simulation (Ready).           *)
(***************************************************************************)
EXTENDS Binding
CONSTANTS DEPTH,
          CARELESS   \* layers are not checked (for the demonstration that Whole fails then)
VARIABLES sim, calls, raised
vars == <<sim, calls, raised>>
I(i) == [k |-> "int", v |-> i]
F(q) == [k |-> "float", v |-> q]
S(s) == [k |-> "str", v |-> s]
L(q) == [k |-> "list", v |-> q]
Y(n) == [k |-> "system", v |-> n]
Z == [k |-> "none", v |-> 0]
Pairs == {L(<<I(0), F(RQ(1, 2))>>), L(<<I(1)>>), L(<<I(1), S("a")>>), Z}
Layers == {I(-1), I(0), I(1), F(R(0))}
Outlines == {L(<<L(<<I(0), I(1)>>), L(<<I(1), I(1)>>)>>), L(<<L(<<I(0), I(1)>>), I(1)>>), L(<<>>)}
Calls ==
  {[f |-> "draw_rectangle", args |-> <<p, q, l>>] : p \in Pairs, q \in Pairs, l \in Layers} \cup {[f |-> "draw_rectangle", args |-> <<>>]}
  \cup {[f |-> "draw_polygon", args |-> <<o, l>>] : o \in Outlines, l \in Layers}
  \cup {[f |-> "draw_region", args |-> <<p, x, l>>] : p \in Pairs, x \in {I(2), F(R(1)), S("b")}, l \in Layers}
  \cup {[f |-> "add_interconnection", args |-> <<p, q, a, b, x>>] : p \in {L(<<I(0), I(0)>>), L(<<I(0)>>)}, q \in {L(<<I(1), I(0)>>), Z}, a \in Layers, b \in Layers, x \in {I(1), Z}}
  \cup {[f |-> "generate_system", args |-> x] : x \in {<<>>, <<[k |-> "bool", v |-> TRUE]>>, <<I(1)>>, <<[k |-> "bool", v |-> FALSE], F(R(1)), I(20), I(1)>>}}
  \cup {[f |-> "set_voltage", args |-> <<y, p, I(1), l>>] : y \in {Y("s"), Y("bare"), Z}, p \in Pairs, l \in Layers}
  \cup {[f |-> "solve", args |-> x] : x \in {<<Y("s")>>, <<Y("bare")>>, <<>>, <<Y("s"), I(1)>>}}
NLayers == 1
Empty == [layers |-> [l \in 0 .. NLayers - 1 |-> <<>>], conns |-> <<>>, sys |-> FALSE, set |-> <<>>, solved |-> 0, stray |-> FALSE]
\* an operation of the library
Do(s, o) ==
  CASE o.op \in {"rect", "poly", "region"} -> IF o.layer \in DOMAIN s.layers THEN [s EXCEPT !.layers[o.layer] = Append(@, o.op)] ELSE [s EXCEPT !.stray = TRUE]
    [] o.op = "connect" -> [s EXCEPT !.conns = Append(@, <<o.l1, o.l2>>)]
    [] o.op = "gen" -> [s EXCEPT !.sys = TRUE, !.set = <<>>]
    [] o.op = "setv" -> IF o.layer \in DOMAIN s.layers THEN [s EXCEPT !.set = Append(@, o.layer)] ELSE [s EXCEPT !.stray = TRUE]
    [] o.op = "solve" -> [s EXCEPT !.solved = @ + 1]
    [] OTHER -> s
RECURSIVE All(_, _)
All(s, q) == IF q = <<>> THEN s ELSE All(Do(s, q[1]), Tail(q))
Ok(c, s) == Right(c.f, c.args, "s", IF CARELESS THEN 100 ELSE NLayers, s.sys)
Init == sim = Empty /\ calls = <<>> /\ raised = 0
Made == \E c \in Calls : /\ Ok(c, sim) /\ sim' = All(sim, Lib(c.f, c.args)) /\ calls' = Append(calls, c) /\ UNCHANGED raised
Raised == \E c \in Calls : ~Ok(c, sim) /\ raised' = raised + 1 /\ UNCHANGED <<sim, calls>>
Next == Len(calls) + raised < DEPTH /\ (Made \/ Raised)
Spec == Init /\ [][Next]_vars
RECURSIVE Told(_, _)
Told(s, q) == IF q = <<>> THEN s ELSE Told(All(s, Lib(q[1].f, q[1].args)), Tail(q))
Same == sim = Told(Empty, calls)
Whole == ~sim.stray /\ \A k \in 1 .. Len(sim.conns) : {sim.conns[k][1], sim.conns[k][2]} \subseteq DOMAIN sim.layers
Ready == (sim.set # <<>> \/ sim.solved > 0) => sim.sys
=============================================================================
