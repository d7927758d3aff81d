------------------------------- MODULE AADTTrace -------------------------------
(* An assembled value is an encoding that can be read like the plain value: every   *)
(* observation of the real object is a function of the abstract value it stands for *)
EXTENDS ADT, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, seen
Ev == Trace[i]
Fail(clause, detail) == PrintT("FAIL " \o ToJson([i |-> i, clause |-> clause, detail |-> detail]))
Must(clause, ok, detail) == IF ok THEN TRUE ELSE Fail(clause, detail)

\* does opcode x of a T encode exactly v?
Is(T, L, x, v) == x \in 0 .. Pow2(L.w) - 1 /\ Dec(T, L, x) = <<TRUE, v>>

\* the bits that belong to no field of v's own level, as a number
RECURSIVE Free(_, _, _, _)
Free(T, L, v, b) ==
  IF b = L.w THEN 0
  ELSE LET In(lo, hi) == lo <= b /\ b < hi
           used == IF IsProd(T) THEN \E f \in 1 .. Len(T.ts) : In(L.lo[f], L.hi[f])
                   ELSE In(L.tlo, L.thi) \/ In(L.lo[Variant(v)], L.hi[Variant(v)])
       IN (IF used THEN 0 ELSE Pow2(b)) + Free(T, L, v, b + 1)

Judge(e) ==
  LET T == e.T L == e.L IN
  /\ \A k \in 1 .. Len(e.rel) : Must("class_relation", e.rel[k][1] = e.rel[k][2], <<k, e.rel>>)
  /\ Must("class_field_types", \A k \in 1 .. Len(e.ct) : e.ct[k] = 1, e.ct)
  /\ \A j \in 1 .. Len(e.vals) :
     LET x == e.vals[j] IN
     /\ \A k \in 1 .. Len(x.ops) :       \* built in several ways: one opcode
          Must("same_opcode", x.ops[k][2] = Enc(T, L, x.v), <<x.v, x.ops[k]>>)
     /\ \A k \in 1 .. Len(x.pads) :      \* a default for unused bits: they have it, no other bit does
          Must("default_bits", x.pads[k][2] = Enc(T, L, x.v) + Free(T, L, x.v, 0), <<x.v, x.pads[k]>>)
     /\ \A k \in 1 .. Len(x.tags) :      \* the tag given by the caller: the opcode, the tag and the matches have it
          LET g == x.tags[k] IN
          /\ Must("given_tag", g[2] = Enc(T, L, x.v) + (g[1] - L.tags[Variant(x.v)]) * Pow2(L.tlo), <<x.v, g>>)
          /\ Must("read_tag", g[3] = g[1], <<x.v, g>>)
          /\ Must("match_tag", \A f \in 1 .. Len(g[4]) : g[4][f] = B2I(g[1] = L.tags[f]), <<x.v, g>>)
     /\ \A k \in 1 .. Len(x.rd) :        \* readings of the objects built that way
        LET r == x.rd[k] IN
        /\ IsProd(T) => \A f \in 1 .. Len(T.ts) :
             /\ Must("field", Is(T.ts[f], L.sub[f], r.fo[f], FieldVal(T, x.v, f)), <<x.v, r.how, f, r.fo>>)
             /\ Must("field_type", r.ft[f] = 1, <<x.v, r.how, f, r.ft>>)
        /\ IsSum(T) =>
             /\ \A f \in 1 .. Len(T.ts) :
                  /\ Must("match", r.m[f] = B2I(f = Variant(x.v)), <<x.v, r.how, f, r.m>>)
                  /\ Must("field_type", r.ft[f] = 1, <<x.v, r.how, f, r.ft>>)
             /\ \A f \in 1 .. Len(r.mc) :
                  /\ Must("match_class", r.mc[f][2] = B2I(r.mc[f][1] = Variant(x.v)), <<x.v, r.how, r.mc[f]>>)
                  /\ r.mc[f][1] = Variant(x.v) => Must("payload_class", Is(T.ts[r.mc[f][1]], L.sub[r.mc[f][1]], r.mc[f][3], Payload(x.v)), <<x.v, r.how, r.mc[f]>>)
             /\ Must("payload", LET a == Variant(x.v) IN Is(T.ts[a], L.sub[a], r.fo[a], Payload(x.v)), <<x.v, r.how, r.fo>>)
  /\ \A j \in 1 .. Len(e.eqs) :
     LET q == e.eqs[j] same == B2I(q.v = q.u) IN
     /\ Must("hash", q.h # 0, <<q.v, q.u>>)
     /\ \A k \in 1 .. Len(q.eq) : Must("equal", q.eq[k] = same, <<q.v, q.u, k, q.eq>>)
     /\ \A k \in 1 .. Len(q.ne) : Must("not_equal", q.ne[k] = 1 - same, <<q.v, q.u, k, q.ne>>)

Init == i = 1 /\ seen = 0
Step == i <= Len(Trace) /\ Judge(Ev) /\ i' = i + 1 /\ seen' = seen + 1
Finish == i = Len(Trace) + 1 /\ i' = i + 1 /\ UNCHANGED seen /\ PrintT("DONE " \o ToJson([n |-> seen]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<i, seen>>
=============================================================================
