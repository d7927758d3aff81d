------------------------------- MODULE IfaceTrace --------------------------------
(* Judges recorded declarations and calls of real components.                            *)
(* [ev |-> "decl", c, parent, own, d, ok]   class c derived from class parent (0: Peak itself), *)
(*      with a declaration d of its own (own) or not; accepted or refused                        *)
(* [ev |-> "iface", c, ins, outs]           the interface it shows                                  *)
(* [ev |-> "call", c, n, res, ok, same]     a call with n arguments whose body returns values of      *)
(*      types res: it returned (same: the very value the body made) or was refused                      *)
(* [ev |-> "ports", d, named, ports]   the ports of the circuit made of d, in order                  *)
EXTENDS Iface, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
BelowDef == {<<"SInt8","BV8">>, <<"UInt8","BV8">>, <<"SInt4","BV4">>}
VARIABLES i, decl, par
Say(b, c, x) == IF b THEN TRUE ELSE PrintT("FAIL " \o ToJson([i |-> i, clause |-> c, detail |-> <<ToString(x)>>]))
TInit == cls = <<>> /\ i = 1 /\ decl = [c \in {} |-> 0] /\ par = [c \in {} |-> 0]
RECURSIVE D(_)
D(c) == IF c \in DOMAIN decl THEN decl[c] ELSE D(par[c])
Step(e) ==
  CASE e.ev = "begin" -> decl' = [c \in {} |-> 0] /\ par' = [c \in {} |-> 0]
    [] e.ev = "decl" ->
         /\ Say(e.own => e.ok = Accepted(e.d), "declaration", <<e, Accepted(e.d)>>)
         /\ Say(~e.own => e.ok, "declaration", e)
         /\ decl' = IF e.own THEN (e.c :> e.d) @@ decl ELSE decl
         /\ par' = (e.c :> e.parent) @@ par
    [] e.ev = "iface" ->
         /\ Say(e.ins = Ins(D(e.c)), "inputs", <<e, Ins(D(e.c))>>)
         /\ Say(e.outs = Outs(D(e.c)), "outputs", <<e, Outs(D(e.c))>>)
         /\ UNCHANGED <<decl, par>>
    [] e.ev = "call" ->
         /\ Say(e.ok = CallOK(D(e.c), e.n, e.res), "call", <<e, D(e.c)>>)
         /\ Say(e.ok => e.same, "results", e)
         /\ UNCHANGED <<decl, par>>
    [] e.ev = "ports" ->
         /\ Say(e.ports = Ports(e.d, e.named), "ports", <<e, Ports(e.d, e.named)>>)
         /\ UNCHANGED <<decl, par>>
    [] OTHER -> Say(FALSE, "what", e) /\ UNCHANGED <<decl, par>>
TNext == /\ i <= Len(T)
         /\ Step(T[i])
         /\ (i = Len(T) => PrintT("DONE " \o ToJson([n |-> Len(T)])))
         /\ i' = i + 1 /\ UNCHANGED cls
TSpec == TInit /\ [][TNext]_<<vars, i, decl, par>>
=============================================================================
