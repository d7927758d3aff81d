-------------------------------- MODULE IfaceGen ---------------------------------
(* Enumerates every declaration over the types Ty with at most two parameters and results, *)
(* and checks what the definitions of Iface say about all of them.                            *)
EXTENDS Iface, Json
CONSTANT Ty
PN == <<"a", "b">>
Params == UNION { { [k \in 1 .. n |-> [n |-> PN[k], t |-> f[k]]] : f \in [1 .. n -> Ty \cup {"-"}] } : n \in 0 .. 2 }
Rets == { [k |-> "-", ts |-> <<>>], [k |-> "none", ts |-> <<>>] }
        \cup { [k |-> "some", ts |-> f] : f \in UNION { [1 .. n -> Ty] : n \in 1 .. 2 } }
ON == <<"y", "x">>
NamesS == { <<>> } \cup { << [k \in 1 .. n |-> [n |-> ON[k], t |-> f[k]]] >> : n \in {1}, f \in [1 .. 1 -> Ty] }
         \cup { << [k \in 1 .. 2 |-> [n |-> ON[k], t |-> f[k]]] >> : f \in [1 .. 2 -> Ty] }
All == { [params |-> p, ret |-> r, names |-> n, gi |-> gi, go |-> go, tc |-> tc] :
           p \in Params, r \in Rets, n \in NamesS, gi \in BOOLEAN, go \in BOOLEAN, tc \in BOOLEAN }
VARIABLE done
GInit == done = FALSE /\ cls = <<>>
GNext == ~done /\ done' = TRUE /\ UNCHANGED cls /\ \A d \in All : PrintT("CASE " \o ToJson(d))
GSpec == GInit /\ [][GNext]_<<vars, done>>
\* type checking refuses more, and nothing else
Results == UNION { [1 .. n -> Ty] : n \in 0 .. 2 }
Sane == done => \A d \in All : Accepted(d) =>
          \A r \in Results : /\ CallOK(d, Len(d.params), r) => CallOK([d EXCEPT !.tc = FALSE], Len(d.params), r)
                             /\ (d.tc /\ CallOK(d, Len(d.params), r)) => Len(r) = Len(OutTypes(d))
=============================================================================
