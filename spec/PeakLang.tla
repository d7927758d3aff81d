-------------------------------- MODULE PeakLang --------------------------------
(* Reference semantics of peak programs: a component is a state machine whose step *)
(* is the sequential reading of its __call__ body.                                  *)
(*                                                                                  *)
(* A program P is a record                                                          *)
(*   ins  : <<[n, T], ...>>            named, typed inputs                          *)
(*   regs : <<[n, v], ...>>            registers and their initial (flat) content   *)
(*   subs : <<[n, P], ...>>            sub-components                               *)
(*   body : <<statement, ...>>                                                      *)
(* Statements                                                                       *)
(*   [s |-> "let", x, e]               x := e                                       *)
(*   [s |-> "if", c, t, f]                                                          *)
(*   [s |-> "set", x, e]               attribute register := e                      *)
(*   [s |-> "creg", x, q, e, en]       x := register q called with e (and en)       *)
(*   [s |-> "csub", xs, q, a]          xs := component q called with arguments a    *)
(*   [s |-> "ret", a]                  return the values a                          *)
(* Black boxes are functions: "bb" takes output i of function n at the arguments a.    *)
(* Expressions carry an operator o, operands a, and widths.  Values are the flat    *)
(* sequences of module ADT.                                                         *)
EXTENDS ADT



RECURSIVE Eval(_, _, _)
Eval(e, env, r) ==
  LET A(k) == Eval(e.a[k], env, r)
      X == A(1)[1]
      Y == A(2)[1]
      w == e.w
      S(x) == ToSigned(w, x)
  IN CASE e.o = "var"  -> env[e.n]
       [] e.o = "attr" -> r[e.n]
       [] e.o = "c"    -> e.v
       [] e.o = "add"  -> << (X + Y) % Pow2(w) >>
       [] e.o = "sub"  -> << (X - Y + Pow2(w)) % Pow2(w) >>
       [] e.o = "mul"  -> << (X * Y) % Pow2(w) >>
       [] e.o = "neg"  -> << (Pow2(w) - X) % Pow2(w) >>
       [] e.o = "inv"  -> << BNot(w, X) >>
       [] e.o = "and"  -> << BAnd(X, Y) >>
       [] e.o = "or"   -> << BOr(X, Y) >>
       [] e.o = "xor"  -> << BXor(X, Y) >>
       [] e.o = "shl"  -> << IF Y >= w THEN 0 ELSE (X * Pow2(Y)) % Pow2(w) >>
       [] e.o = "lshr" -> << IF Y >= w THEN 0 ELSE X \div Pow2(Y) >>
       [] e.o = "ashr" -> << IF Y >= w THEN (IF S(X) < 0 THEN Pow2(w) - 1 ELSE 0)
                             ELSE (S(X) \div Pow2(Y)) % Pow2(w) >>
       [] e.o = "eq"   -> << B2I(A(1) = A(2)) >>
       [] e.o = "ne"   -> << B2I(A(1) # A(2)) >>
       [] e.o = "ult"  -> << B2I(X < Y) >>
       [] e.o = "ule"  -> << B2I(X <= Y) >>
       [] e.o = "ugt"  -> << B2I(X > Y) >>
       [] e.o = "uge"  -> << B2I(X >= Y) >>
       [] e.o = "slt"  -> << B2I(S(X) < S(Y)) >>
       [] e.o = "sle"  -> << B2I(S(X) <= S(Y)) >>
       [] e.o = "sgt"  -> << B2I(S(X) > S(Y)) >>
       [] e.o = "sge"  -> << B2I(S(X) >= S(Y)) >>
       [] e.o = "bnot" -> << 1 - X >>
       [] e.o = "ite"  -> IF X = 1 THEN A(2) ELSE A(3)
       [] e.o = "slice"  -> << Slice(X, e.lo, e.hi) >>
       [] e.o = "bit"    -> << BitAt(X, e.lo) >>
       [] e.o = "concat" -> << X + Y * Pow2(w) >>            \* w: width of the first
       [] e.o = "zext"   -> << X >>
       [] e.o = "sext"   -> << S(X) % Pow2(w + e.hi) >>      \* e.hi: bits added
       [] e.o = "cast"   -> A(1)                             \* signed <-> plain
       [] e.o = "field"  -> FieldVal(e.T, A(1), e.i)
       [] e.o = "match"  -> << B2I(Variant(A(1)) = e.i) >>
       [] e.o = "payload" -> Payload(A(1))                   \* only where it matches
       [] e.o = "mkprod" -> IF Len(e.a) = 1 THEN A(1) ELSE
                            FoldLeft(LAMBDA acc, k : acc \o A(k), <<>>, [k \in 1 .. Len(e.a) |-> k])
       [] e.o = "mkvar"  -> <<e.i>> \o A(1)
       [] e.o = "bb"     -> env["$"][e.n][[k \in 1 .. Len(e.a) |-> A(k)]][e.i]   \* output i of function n

RECURSIVE InitSt(_)
InitSt(P) == [r |-> [n \in {P.regs[k].n : k \in 1 .. Len(P.regs)} |->
                       P.regs[CHOOSE k \in 1 .. Len(P.regs) : P.regs[k].n = n].v],
              m |-> [n \in {P.subs[k].n : k \in 1 .. Len(P.subs)} |->
                       InitSt(P.subs[CHOOSE k \in 1 .. Len(P.subs) : P.subs[k].n = n].P)]]
SubProg(P, n) == P.subs[CHOOSE k \in 1 .. Len(P.subs) : P.subs[k].n = n].P

\* execution state: env, r, m, out (<<>> until returned), done
RECURSIVE Exec(_, _, _, _), StepF(_, _, _, _)
Exec(P, ss, k, s) ==
  IF k > Len(ss) \/ s.done THEN s
  ELSE
  LET c == ss[k] IN
  LET s2 ==
    CASE c.s = "let" -> [s EXCEPT !.env = (c.x :> Eval(c.e, s.env, s.r)) @@ s.env]
      [] c.s = "if"  -> IF Eval(c.c, s.env, s.r) = <<1>> THEN Exec(P, c.t, 1, s) ELSE Exec(P, c.f, 1, s)
      [] c.s = "set" -> [s EXCEPT !.r[c.x] = Eval(c.e, s.env, s.r)]
      [] c.s = "creg" ->
           LET v == Eval(c.e, s.env, s.r)
               en == IF c.en = <<>> THEN TRUE ELSE Eval(c.en[1], s.env, s.r) = <<1>>
           IN [s EXCEPT !.env = (c.x :> s.r[c.q]) @@ s.env, !.r[c.q] = IF en THEN v ELSE @]
      [] c.s = "csub" ->
           LET Q == SubProg(P, c.q)
               res == StepF(Q, s.m[c.q], [j \in 1 .. Len(c.a) |-> Eval(c.a[j], s.env, s.r)], s.env["$"])
               new == [x \in {c.xs[j] : j \in 1 .. Len(c.xs)} |->
                         res.out[CHOOSE j \in 1 .. Len(c.xs) : c.xs[j] = x]]
           IN [s EXCEPT !.env = new @@ s.env, !.m[c.q] = res.st]
      [] c.s = "ret" -> [s EXCEPT !.out = [j \in 1 .. Len(c.a) |-> Eval(c.a[j], s.env, s.r)], !.done = TRUE]
  IN Exec(P, ss, k + 1, s2)

\* one call: inputs in declared order -> [out, st]; f: what the black boxes compute
StepF(P, st, ins, f) ==
  LET env0 == [n \in {P.ins[k].n : k \in 1 .. Len(P.ins)} |->
                 ins[CHOOSE k \in 1 .. Len(P.ins) : P.ins[k].n = n]]
      s == Exec(P, P.body, 1, [env |-> ("$" :> f) @@ env0, r |-> st.r, m |-> st.m, out |-> <<>>, done |-> FALSE])
  IN [out |-> s.out, st |-> [r |-> s.r, m |-> s.m]]
StepP(P, st, ins) == StepF(P, st, ins, <<>>)

\* all input tuples of a program (small types only)
RECURSIVE InputsFrom(_, _)
InputsFrom(P, k) == IF k > Len(P.ins) THEN { <<>> }
                    ELSE { <<v>> \o t : v \in Values(P.ins[k].T), t \in InputsFrom(P, k + 1) }
Inputs(P) == InputsFrom(P, 1)
=============================================================================
