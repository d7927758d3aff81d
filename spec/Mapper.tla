--------------------------------- MODULE Mapper ---------------------------------
(* Rewrite rules: when an architecture with some inputs fixed and the others        *)
(* connected implements an instruction of an IR, and whether such a rule exists.    *)
(* Instructions and architectures are (combinational) programs of PeakLang whose    *)
(* inputs additionally carry c: is the input a constant of the instruction?         *)
(* A leaf is named by its path: input index, then field / variant indices.          *)
EXTENDS PeakLang

\* Black boxes: kinds |-> <<[n, ins, outs]>>; what they compute is any function, the same
\* one wherever the kind occurs.  A rule has to hold for all of them.
RECURSIVE Tuples(_, _), FunsFrom(_, _)
Tuples(ts, k) == IF k > Len(ts) THEN { <<>> } ELSE { <<v>> \o t : v \in Values(ts[k]), t \in Tuples(ts, k + 1) }
FunsFrom(ks, j) ==
  IF j > Len(ks) THEN { [x \in {} |-> 0] }
  ELSE { (ks[j].n :> g) @@ h : g \in [Tuples(ks[j].ins, 1) -> Tuples(ks[j].outs, 1)], h \in FunsFrom(ks, j + 1) }
BBFuns(ks) == TLCEval(SetToSeq(FunsFrom(ks, 1)))

\* the outputs: function of the black boxes, inputs -> outputs
Tbl(P, FS) == LET st == InitSt(P)
                  In == Inputs(P)
              IN TLCEval([f \in 1 .. Len(FS) |-> TLCEval([v \in In |-> StepF(P, st, v, FS[f]).out])])

\* the alternatives of an input type: each a set of leaves
RECURSIVE Forms(_, _, _), ProdForms(_, _, _, _)
Forms(T, p, c) ==
  CASE IsProd(T) -> ProdForms(T.ts, p, c, 1)
    [] IsSum(T) -> UNION { Forms(T.ts[i], Append(p, i), c) : i \in 1 .. Len(T.ts) }
    [] OTHER -> { { [p |-> p, T |-> T, c |-> c] } }
ProdForms(ts, p, c, i) ==
  IF i > Len(ts) THEN { {} }
  ELSE { a \cup b : a \in Forms(ts[i], Append(p, i), c), b \in ProdForms(ts, p, c, i + 1) }
RECURSIVE InForms(_, _)
InForms(P, i) == IF i > Len(P.ins) THEN { {} }
                 ELSE { a \cup b : a \in Forms(P.ins[i].T, <<i>>, P.ins[i].c), b \in InForms(P, i + 1) }

\* outputs are products, tuples and leaves
OutLeaves(P) == UNION { CHOOSE f \in Forms(P.outs[i], <<i>>, FALSE) : TRUE : i \in 1 .. Len(P.outs) }
OutT(P, p) == LET S == { l \in OutLeaves(P) : l.p = p } IN IF S = {} THEN [k |-> "none"] ELSE (CHOOSE l \in S : TRUE).T

\* the value of the leaf at a path / of the whole from its leaves
RECURSIVE At(_, _, _)
At(T, v, p) == IF p = <<>> THEN v
               ELSE IF IsProd(T) THEN At(T.ts[p[1]], FieldVal(T, v, p[1]), Tail(p))
               ELSE At(T.ts[p[1]], Payload(v), Tail(p))
InAt(P, ins, p) == At(P.ins[p[1]].T, ins[p[1]], Tail(p))
OutAt(P, outs, p) == At(P.outs[p[1]], outs[p[1]], Tail(p))
RECURSIVE Build(_, _, _)
Build(T, p, src) ==
  CASE IsProd(T) -> FoldLeft(LAMBDA acc, k : acc \o Build(T.ts[k], Append(p, k), src), <<>>, [k \in 1 .. Len(T.ts) |-> k])
    [] IsSum(T) -> LET i == CHOOSE i \in 1 .. Len(T.ts) :
                                 \E q \in DOMAIN src : Len(q) > Len(p) /\ SubSeq(q, 1, Len(p) + 1) = Append(p, i)
                   IN <<i>> \o Build(T.ts[i], Append(p, i), src)
    [] OTHER -> src[p]
BuildIn(P, src) == [i \in 1 .. Len(P.ins) |-> Build(P.ins[i].T, <<i>>, src)]

-------------------------------------------------------------------------------
(* A rule: ib, one entry per leaf of an alternative of the architecture's inputs,   *)
(*   [q |-> leaf, s |-> "p", p |-> leaf of the IR] | [s |-> "c", v] | [s |-> "u"]    *)
(* ob, [q |-> output leaf of the architecture, s |-> "p", p |-> that of the IR] | "u"  *)
LeafOf(F, q) == CHOOSE l \in F : l.p = q
WellFormed(I, A, ib, ob, pc) ==
  LET Q == { ib[k].q : k \in 1 .. Len(ib) }
      S == { f \in InForms(A, 1) : { l.p : l \in f } = Q }
  IN /\ Cardinality(Q) = Len(ib)
     /\ S # {}
     /\ LET F == CHOOSE f \in S : TRUE
            IF_ == CHOOSE f \in InForms(I, 1) : TRUE
        IN /\ \A k \in 1 .. Len(ib) : LET b == ib[k]  l == LeafOf(F, b.q) IN
                 /\ b.s = "p" => \E m \in IF_ : m.p = b.p /\ m.T = l.T
                 /\ b.s = "c" => IsValue(l.T, b.v)
                 /\ b.s = "u" => ~l.c
                 /\ \A j \in 1 .. Len(pc) : pc[j].p = b.q =>
                       /\ b.s # "p"
                       /\ b.s = "c" => \E n \in 1 .. Len(pc[j].vs) : pc[j].vs[n] = b.v
           /\ \A m \in IF_ : \E k \in 1 .. Len(ib) : ib[k].s = "p" /\ ib[k].p = m.p
     /\ { l.p : l \in OutLeaves(I) } = { ob[k].p : k \in {k \in 1 .. Len(ob) : ob[k].s = "p"} }
     /\ { l.p : l \in OutLeaves(A) } = { ob[k].q : k \in 1 .. Len(ob) }
     /\ Cardinality(OutLeaves(A)) = Len(ob)
     /\ \A k \in 1 .. Len(ob) : ob[k].s = "p" => OutT(I, ob[k].p) = OutT(A, ob[k].q)

\* a rule has to give each constant input a legal value or an input of the IR
Fixed(A, ib) ==
  LET F == CHOOSE f \in InForms(A, 1) : { l.p : l \in f } = { ib[k].q : k \in 1 .. Len(ib) }
  IN \A k \in 1 .. Len(ib) : LET l == LeafOf(F, ib[k].q) IN
       /\ ib[k].s = "u" => ~l.c
       /\ ib[k].s = "c" => IsValue(l.T, ib[k].v)

RECURSIVE FreeVals(_, _)      \* all assignments to a sequence of leaves
FreeVals(ls, k) == IF k > Len(ls) THEN { <<>> }
                   ELSE { <<v>> \o t : v \in ls[k].vs, t \in FreeVals(ls, k + 1) }
FreeLeaves(A, ib) ==
  LET ks == SelectSeq([k \in 1 .. Len(ib) |-> k], LAMBDA k : ib[k].s = "u")
      F == CHOOSE f \in InForms(A, 1) : { l.p : l \in f } = { ib[k].q : k \in 1 .. Len(ib) }
  IN [j \in 1 .. Len(ks) |-> [p |-> ib[ks[j]].q, vs |-> Values(LeafOf(F, ib[ks[j]].q).T)]]
\* the architecture's inputs for given IR inputs and free values
ArchIn(I, A, ib, fl, iv, fv) ==
  BuildIn(A, [q \in { ib[k].q : k \in 1 .. Len(ib) } |->
               LET b == ib[CHOOSE k \in 1 .. Len(ib) : ib[k].q = q]
               IN CASE b.s = "p" -> InAt(I, iv, b.p)
                    [] b.s = "c" -> b.v
                    [] b.s = "u" -> fv[CHOOSE j \in 1 .. Len(fl) : fl[j].p = q]])
Agree(I, A, ob, io, ao) == \A k \in 1 .. Len(ob) : ob[k].s = "p" => OutAt(I, io, ob[k].p) = OutAt(A, ao, ob[k].q)
Holds(I, A, IT, AT, ib, ob) ==
  LET fl == FreeLeaves(A, ib) IN
  \A f \in DOMAIN IT : \A iv \in DOMAIN IT[f] : \A fv \in FreeVals(fl, 1) :
     Agree(I, A, ob, IT[f][iv], AT[f][ArchIn(I, A, ib, fl, iv, fv)])

\* a data input restricted to some values may have any of them: the rule with each of them
Restricted(A, ib, pc) ==
  LET F == CHOOSE f \in InForms(A, 1) : { l.p : l \in f } = { ib[k].q : k \in 1 .. Len(ib) }
      ks == SelectSeq([k \in 1 .. Len(ib) |-> k],
                      LAMBDA k : ib[k].s = "c" /\ ~LeafOf(F, ib[k].q).c /\ \E j \in 1 .. Len(pc) : pc[j].p = ib[k].q)
      Of(k) == LET j == CHOOSE j \in 1 .. Len(pc) : pc[j].p = ib[k].q IN { pc[j].vs[n] : n \in 1 .. Len(pc[j].vs) }
  IN { [k \in 1 .. Len(ib) |-> IF \E n \in 1 .. Len(ks) : ks[n] = k
                                THEN [ib[k] EXCEPT !.v = fv[CHOOSE n \in 1 .. Len(ks) : ks[n] = k]] ELSE ib[k]]
       : fv \in FreeVals([n \in 1 .. Len(ks) |-> [vs |-> Of(ks[n])]], 1) }

-------------------------------------------------------------------------------
(* Is there a rule at all?  pc restricts leaves of the architecture to some values. *)
RECURSIVE Binds(_, _, _)
Binds(il, k, F) == IF k > Len(il) THEN { <<>> }
                   ELSE UNION { { <<a>> \o b : b \in Binds(il, k + 1, F \ {a}) } :
                                a \in { a \in F : a.T = il[k].T /\ a.c = il[k].c } }
Allowed(pc, l) == IF \E j \in 1 .. Len(pc) : pc[j].p = l.p
                   THEN LET j == CHOOSE j \in 1 .. Len(pc) : pc[j].p = l.p
                        IN { pc[j].vs[n] : n \in 1 .. Len(pc[j].vs) }
                   ELSE Values(l.T)
\* output leaves of the IR (in the order of ol) onto different ones of the architecture
RECURSIVE OBinds(_, _, _)
OBinds(ol, k, F) == IF k > Len(ol) THEN { <<>> }
                    ELSE UNION { { <<l.p>> \o b : b \in OBinds(ol, k + 1, F \ {l}) } : l \in { l \in F : l.T = ol[k].T } }

Exists(I, A, IT, AT, pc) ==
  LET IFm == CHOOSE f \in InForms(I, 1) : TRUE
      il == SetToSeq(IFm)
      ol == SetToSeq(OutLeaves(I))
      OB == OBinds(ol, 1, OutLeaves(A))
  IN \E F \in InForms(A, 1) :
     \E b \in Binds(il, 1, { l \in F : ~\E j \in 1 .. Len(pc) : pc[j].p = l.p }) :
       LET bound == { b[k] : k \in 1 .. Len(b) }
           Cs == SetToSeq({ l \in F \ bound : l.c })
           Fs == SetToSeq({ l \in F \ bound : ~l.c })
           CV == FreeVals([k \in 1 .. Len(Cs) |-> [vs |-> Allowed(pc, Cs[k])]], 1)
           FV == FreeVals([k \in 1 .. Len(Fs) |-> [vs |-> Allowed(pc, Fs[k])]], 1)
           Src(iv, cv, fv) ==
             [q \in { l.p : l \in F } |->
                IF \E k \in 1 .. Len(b) : b[k].p = q
                THEN InAt(I, iv, il[CHOOSE k \in 1 .. Len(b) : b[k].p = q].p)
                ELSE IF \E k \in 1 .. Len(Cs) : Cs[k].p = q
                THEN cv[CHOOSE k \in 1 .. Len(Cs) : Cs[k].p = q]
                ELSE fv[CHOOSE k \in 1 .. Len(Fs) : Fs[k].p = q]]
       IN \E cv \in CV : \E ob \in OB :
            \A iv \in DOMAIN IT[1] : \A fv \in FV :
              LET av == BuildIn(A, Src(iv, cv, fv)) IN
              \A f \in DOMAIN IT : \A k \in 1 .. Len(ol) : OutAt(I, IT[f][iv], ol[k].p) = OutAt(A, AT[f][av], ob[k])
=============================================================================
