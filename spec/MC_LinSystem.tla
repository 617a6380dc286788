----------------------------- MODULE MC_LinSystem -----------------------------
\* Exhaustive: all patterns over order M, prescriptions in every order, a copy taken at any time.
EXTENDS LinSystem
CONSTANTS M
VARIABLE copied
Pairs == {p \in (0 .. M - 1) \X (0 .. M - 1) : p[1] <= p[2]}
Coef(p) == IF p[1] = p[2] THEN XAdd(K(3 + p[1]), Term(1, p[1])) ELSE XAdd(K(p[1] - p[2]), Term(p[1] + 2 * p[2], p[2]))
Init == LInit /\ copied = FALSE
Next == \/ /\ DOMAIN sys = {} /\ UNCHANGED copied
           /\ \E S \in SUBSET Pairs : NewSystem("a", M, TLCEval([p \in S |-> Coef(p)]), TLCEval([i \in 0 .. M - 1 |-> K(10 * i + 1)]))
        \/ ~copied /\ copied' = TRUE /\ CopySystem("a", "b")
        \/ \E n \in DOMAIN sys : \E id \in 0 .. M - 1 : UNCHANGED copied /\ Prescribe(n, id, RQ(2 * id - 1, 1))
Spec == Init /\ [][Next]_<<sys, copied>>
\* prescribing on one system leaves every other system alone
Isolated == [][\A n, k \in DOMAIN sys : n # k => sys'[n] = sys[n] \/ sys'[k] = sys[k]]_<<sys, copied>>
\* the order of prescription does not matter: the result depends on what is prescribed only
OrderFree == \A n, k \in DOMAIN sys : sys[n].fixed = sys[k].fixed => \A i \in 0 .. M - 1 : XSame(sys[n].b[i], sys[k].b[i])
=============================================================================
