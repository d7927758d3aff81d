---------------------------------- MODULE Iface ----------------------------------
(* Interfaces of components.  A declaration d is what a component's source says:        *)
(*   params  <<[n, t], ...>>  parameters in order; t = "-" if not annotated                *)
(*   ret     [k, ts]: k = "-" without return annotation, "none" or "some" with the types ts   *)
(*   names   <<>> or <<outs>>: named results <<[n, t], ...>>                                 *)
(*   gi, go, tc   derive inputs / derive outputs / check types                                *)
(* Types are names; Fits(v, t) says whether a value of type v may stand for a t.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Annotated(d) == \A k \in DOMAIN d.params : d.params[k].t # "-"
HasOutputs(d) == d.names # <<>> \/ (d.go /\ d.ret.k # "-")
\* a declaration is refused if something asked for cannot be derived
Accepted(d) ==
  /\ d.go => (d.names # <<>> \/ d.ret.k # "-")
  /\ d.gi => Annotated(d)
  /\ d.tc => HasOutputs(d)
\* the derived interface [k, f]: k = "-" if it was not asked for, "none" if there is nothing,
\* "some" with the fields f in order
Ins(d) == IF ~d.gi THEN [k |-> "-", f |-> <<>>]
          ELSE IF d.params = <<>> THEN [k |-> "none", f |-> <<>>]
          ELSE [k |-> "some", f |-> d.params]
Outs(d) == IF d.names # <<>> THEN [k |-> "some", f |-> d.names[1]]
           ELSE IF ~HasOutputs(d) THEN [k |-> "-", f |-> <<>>]
           ELSE [k |-> d.ret.k, f |-> [j \in DOMAIN d.ret.ts |-> [n |-> ToString(j - 1), t |-> d.ret.ts[j]]]]
OutTypes(d) == [j \in DOMAIN Outs(d).f |-> Outs(d).f[j].t]
\* leaf types: a signed or unsigned vector is a vector
CONSTANT Below         \* the pairs <<v, t>> of different types with v usable as t
Fits(v, t) == v = t \/ <<v, t>> \in Below
\* res: the types of what the body returns, one : a single value rather than a tuple
Matches(d, res) == Len(res) = Len(OutTypes(d)) /\ \A k \in DOMAIN res : Fits(res[k], OutTypes(d)[k])
\* a call is refused or its results are passed on as they are
CallOK(d, nargs, res) == nargs = Len(d.params) /\ (d.tc => Matches(d, res))

\* the ports of the circuit: the parameters, then the results under their names if that was asked
\* for, numbered otherwise
Numbered(n) == IF n = 1 THEN <<"O">> ELSE [k \in 1 .. n |-> "O" \o ToString(k - 1)]
Ports(d, named) == [k \in DOMAIN d.params |-> d.params[k].n] \o
  (IF named /\ d.names # <<>> THEN [k \in DOMAIN d.names[1] |-> d.names[1][k].n] ELSE Numbered(Len(OutTypes(d))))

\* -- the transition system: classes derived from classes ----------------------------------------
(* A class without a declaration of its own has the interface of the class it derives from. *)
CONSTANTS Decls, MaxCls
VARIABLES cls      \* <<[parent, own: 0 or a declaration's number]>>
vars == <<cls>>
Root == 0
RECURSIVE DeclOf(_, _)
DeclOf(cs, c) == IF c = 0 THEN 0 ELSE IF cs[c].own # 0 THEN cs[c].own ELSE DeclOf(cs, cs[c].parent)
Init == cls = <<>>
Next == /\ Len(cls) < MaxCls
        /\ \E p \in 0 .. Len(cls), o \in Decls \cup {0} : cls' = Append(cls, [parent |-> p, own |-> o])
Spec == Init /\ [][Next]_vars
\* what a class has is never changed by deriving others from it
Kept == [][\A c \in DOMAIN cls : DeclOf(cls', c) = DeclOf(cls, c)]_vars
Nearest == \A c \in DOMAIN cls : cls[c].own # 0 => DeclOf(cls, c) = cls[c].own
=============================================================================
