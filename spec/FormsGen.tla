------------------------------- MODULE FormsGen --------------------------------
(* The obligations of Forms hold for every small type: checked by TLC.              *)
EXTENDS Forms
B == [k |-> "bit"]  V(w) == [k |-> "bv", w |-> w]  E3 == [k |-> "enum", codes |-> <<0, 1, 2>>]
L0 == {B, V(2), E3}
Mk(k, ts) == [k |-> k, ts |-> ts]
L1 == L0 \cup { Mk(k, <<a, b>>) : k \in {"prod", "sum"}, a \in L0, b \in L0 }
VARIABLE T
Init == T \in L0
\* types grow by one constructor at a time
Next == \/ \E k \in {"prod", "sum"}, b \in L1 : T \in L1 /\ (T' = Mk(k, <<T, b>>) \/ T' = Mk(k, <<b, T>>))
        \/ \E k \in {"tu"}, a \in L0, b \in L0 : T \in L0 /\ T' = Mk(k, <<T, a, b>>)
Spec == Init /\ [][Next]_T
Small == Cardinality(Values(T)) <= 40
Law == Small => Partition(T)
=============================================================================
