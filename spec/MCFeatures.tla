------------------------------ MODULE MCFeatures ------------------------------
(* Every choice of up to three dependents *)
EXTENDS Features
VARIABLES reqs, m
Init == m = StartM /\ \/ \E a \in Requests : reqs = <<a>>
                      \/ \E a, b \in Requests : reqs = <<a, b>>
                      \/ \E a, b, c \in Requests : reqs = <<a, b, c>>
Next == m.ph # "done" /\ m' = Step(m, reqs) /\ UNCHANGED reqs
Exactness == Exact(m, reqs)
NothingOfStd == NoStd(m, reqs)
Additivity == Additive(m, reqs)
\* every run comes to an end
Ends == <>(m.ph = "done")
Spec == Init /\ [][Next]_<<reqs, m>> /\ WF_<<reqs, m>>(Next)
=============================================================================
