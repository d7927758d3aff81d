--------------------------------- MODULE IRLib ---------------------------------
(* An IR is a library of instructions: a growing sequence of definitions with distinct  *)
(* names.  A definition is [n: name, ins, outs: <<[n, T], ...>>, es: one expression over  *)
(* the inputs per output].  An instruction is the function its definition describes.         *)
EXTENDS PeakLang

NamesOf(ir) == { ir[k].n : k \in DOMAIN ir }
Add(ir, d) == IF d.n \in NamesOf(ir) THEN ir ELSE Append(ir, d)
Accepts(ir, n) == n \notin NamesOf(ir)
Def(ir, n) == ir[CHOOSE k \in DOMAIN ir : ir[k].n = n]
Listing(ir) == [k \in DOMAIN ir |-> ir[k].n]
EnvOf(d, in) == [n \in { d.ins[k].n : k \in DOMAIN d.ins } |-> in[CHOOSE k \in DOMAIN d.ins : d.ins[k].n = n]]
Compute(d, in) == [k \in DOMAIN d.es |-> Eval(d.es[k], EnvOf(d, in), [x \in {} |-> 0])]

\* -- the transition system, checked on its own ----------------------------------------------
CONSTANTS Names, Defs, MaxOps
VARIABLES lib, asked
vars == <<lib, asked>>
V(x) == [o |-> "var", n |-> x, a |-> <<>>, w |-> 2]
\* a few two-bit functions
Fun(k, n) ==
  LET T == [k |-> "bv", w |-> 2]
      e == CASE k = 1 -> [o |-> "add", a |-> <<V("x"), V("y")>>, w |-> 2]
             [] k = 2 -> [o |-> "sub", a |-> <<V("x"), V("y")>>, w |-> 2]
             [] k = 3 -> V("y")
  IN [n |-> n, ins |-> <<[n |-> "x", T |-> T], [n |-> "y", T |-> T]>>, outs |-> <<[n |-> "o", T |-> T]>>, es |-> <<e>>]
Init == lib = <<>> /\ asked = <<>>
Next == /\ Len(asked) < MaxOps
        /\ \E n \in Names, k \in Defs :
             /\ lib' = Add(lib, Fun(k, n))
             /\ asked' = Append(asked, [n |-> n, k |-> k, ok |-> Accepts(lib, n)])
Spec == Init /\ [][Next]_vars
\* the library holds exactly what was accepted, in that order, and the first definition of a name for ever
AcceptedInOrder == lib = LET R == SelectSeq(asked, LAMBDA q : q.ok) IN [k \in DOMAIN R |-> Fun(R[k].k, R[k].n)]
FirstWins == \A j \in DOMAIN asked : asked[j].ok <=> \A i \in 1 .. j - 1 : asked[i].n # asked[j].n
Distinct == \A i, j \in DOMAIN lib : lib[i].n = lib[j].n => i = j
Stable == [][\A k \in DOMAIN lib : k \in DOMAIN lib' /\ lib'[k] = lib[k]]_vars
In2 == { << <<x>>, <<y>> >> : x, y \in 0 .. 3 }
Computes == \A k \in DOMAIN lib : \A in \in In2 :
              Compute(lib[k], in) =
                LET j == CHOOSE j \in DOMAIN asked : asked[j].n = lib[k].n /\ asked[j].ok
                IN << << CASE asked[j].k = 1 -> (in[1][1] + in[2][1]) % 4
                           [] asked[j].k = 2 -> (in[1][1] - in[2][1]) % 4
                           [] asked[j].k = 3 -> in[2][1] >> >>
=============================================================================
