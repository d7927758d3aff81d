------------------------------ MODULE FormsTrace -------------------------------
(* [ev "forms", T,                                                                  *)
(*  forms |-> <<[ch |-> <<<<path, variant>>>>, ls |-> <<leaf paths>>,               *)
(*     s |-> <<[a |-> <<[p, v]>> (what the form's variables are set to),             *)
(*              v (value of the form), w (value of the whole type's variable),       *)
(*              m |-> <<[p, on |-> <<variants whose match is true>>]>>]>>]>>,         *)
(*  vals |-> <<[v, a |-> <<[p, v]>> (leaves of the form of v), m, n]>>]               *)
(* [ev "bind", A, I, b |-> <<<<IR index or 0>>>>]                                    *)
EXTENDS Forms, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(clause, detail) == PrintT("FAIL " \o ToJson([i |-> i, clause |-> clause, detail |-> detail]))
Must(clause, ok, detail) == IF ok THEN TRUE ELSE Fail(clause, detail)

FormOf(T, f) ==
  LET ch == { <<c[1], c[2]>> : c \in Range(f.ch) } IN
  /\ Must("choice", Cardinality(ch) = Len(f.ch) /\ ch \in TChoices(T, <<>>), <<f.ch>>)
  /\ ch \in TChoices(T, <<>>) =>
       /\ Must("leaves", Range(f.ls) = { l.p : l \in LeavesOf(T, <<>>, ch) } /\ Len(f.ls) = Cardinality(Range(f.ls)), <<f.ch, f.ls>>)
       /\ Range(f.ls) = { l.p : l \in LeavesOf(T, <<>>, ch) } =>
          \A k \in 1 .. Len(f.s) :
            LET s == f.s[k]
                src == [p \in { a.p : a \in Range(s.a) } |-> (CHOOSE a \in Range(s.a) : a.p = p).v]
                want == BuildF(T, <<>>, ch, src)
            IN /\ Must("decodes", s.v = want, <<f.ch, s, want>>)
               /\ Must("whole", s.w = want, <<f.ch, s, want>>)
               /\ Must("match", \A c \in ch : \E m \in Range(s.m) : m.p = c[1] /\ m.on = <<c[2]>>, <<f.ch, s.m>>)

JudgeForms(e) ==
  /\ Must("cover", { { <<c[1], c[2]>> : c \in Range(e.forms[k].ch) } : k \in 1 .. Len(e.forms) } = TChoices(e.T, <<>>), <<"missing">>)
  /\ Must("once", Len(e.forms) = Cardinality(TChoices(e.T, <<>>)), <<Len(e.forms)>>)
  /\ \A k \in 1 .. Len(e.forms) : FormOf(e.T, e.forms[k])
  /\ \A k \in 1 .. Len(e.vals) :
       LET x == e.vals[k]  ch == ChoiceOf(e.T, <<>>, x.v)
           src == [p \in { a.p : a \in Range(x.a) } |-> (CHOOSE a \in Range(x.a) : a.p = p).v]
       IN /\ Must("given-once", x.n = Cardinality(TChoices(e.T, <<>>)), <<x>>)
          /\ Must("given-leaves", DOMAIN src = { l.p : l \in LeavesOf(e.T, <<>>, ch) }, <<x>>)
          /\ DOMAIN src = { l.p : l \in LeavesOf(e.T, <<>>, ch) } => Must("given", BuildF(e.T, <<>>, ch, src) = x.v, <<x>>)
          /\ Must("given-match", \A c \in ch : \E m \in Range(x.m) : m.p = c[1] /\ m.on = <<c[2]>>, <<x>>)

JudgeBind(e) ==
  /\ Must("bindings", { e.b[k] : k \in 1 .. Len(e.b) } = Bindings(e.A, e.I),
          <<Len(e.b), Cardinality(Bindings(e.A, e.I))>>)
  /\ Must("binding-once", Len(e.b) = Cardinality({ e.b[k] : k \in 1 .. Len(e.b) }), <<Len(e.b)>>)

Init == i = 1
Step == i <= Len(Trace) /\ i' = i + 1 /\ (IF Trace[i].ev = "forms" THEN JudgeForms(Trace[i]) ELSE JudgeBind(Trace[i]))
Finish == i = Len(Trace) + 1 /\ i' = i + 1 /\ PrintT("DONE " \o ToJson([n |-> i - 1]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_i
=============================================================================
