------------------------------- MODULE AsmTrace -------------------------------
(* Judges what the real assemblers did for one instruction type per event.  The    *)
(* process history (which types were assembled before) is the position in the      *)
(* trace: the verdicts below do not depend on it, which is itself part of C02.     *)
EXTENDS ADT, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, seen
Ev == Trace[i]

Fail(clause, detail) == PrintT("FAIL " \o ToJson([i |-> i, clause |-> clause, detail |-> detail]))
\* a clause: print when it does not hold, never block the trace
Must(clause, ok, detail) == IF ok THEN TRUE ELSE Fail(clause, detail)

\* ---- C01: codec ---------------------------------------------------------------
\* x.a : << <<opcode or -1, width>>, ... >> one per assembler generation and bv type
\* x.d : << <<1, value>> | <<0, <<>>>>, ... >> disassembly of the generations; x.eq their ==
Codec(e) ==
  LET T == e.T L == e.L n == Len(e.vals) IN
  /\ Must("width", \A k \in 1 .. Len(e.w) : e.w[k] = L.w, e.w)
  /\ \A j \in 1 .. n :
       LET x == e.vals[j] IN
       /\ Must("is_value", IsValue(T, x.v), x.v)
       /\ \A k \in 1 .. Len(x.a) :
            /\ Must("opcode_width", x.a[k][2] = L.w, <<x.v, k, x.a[k]>>)
            /\ Must("opcode_range", x.a[k][1] \in 0 .. Pow2(L.w) - 1, <<x.v, k, x.a[k]>>)
            /\ Must("generations_agree", x.a[k][1] = x.a[1][1], <<x.v, k, x.a[k], x.a[1]>>)
       /\ \A k \in 1 .. Len(x.d) :
            /\ Must("round_trip", x.d[k][1] = 1 /\ x.d[k][2] = x.v, <<x.v, k, x.d[k]>>)
            /\ Must("round_trip_equal", x.eq[k] = 1, <<x.v, k>>)
  /\ Must("injective", Cardinality({e.vals[j].a[1][1] : j \in 1 .. n}) = Cardinality({e.vals[j].v : j \in 1 .. n}), n)
  /\ Must("explicit_codes", e.T.k = "enum" => EnumCodesOK(T, L), L)
  /\ Must("all_values", e.exh => {e.vals[j].v : j \in 1 .. n} = Values(T), n)

\* ---- C02: validity ------------------------------------------------------------
\* x.s : answers of is_valid (0/1, -1 = raised); x.d as above
Validity(e) ==
  LET T == e.T L == e.L IN
  /\ \A j \in 1 .. Len(e.ops) :
       LET x == e.ops[j] good == Valid(T, L, x.x) IN
       /\ \A k \in 1 .. Len(x.s) : Must("is_valid", x.s[k] = B2I(good), <<x.x, k, x.s[k], good>>)
       /\ \A k \in 1 .. Len(x.d) :
            IF good THEN Must("decodes", x.d[k] = <<1, Dec(T, L, x.x)[2]>>, <<x.x, k, x.d[k]>>)
            ELSE Must("refuses", x.d[k][1] = 0, <<x.x, k, x.d[k]>>)
       /\ Must("refuses_with_value_error", good \/ x.exc = "ValueError", <<x.x, x.exc>>)
  /\ IsSum(T) => \A t \in 1 .. Len(e.tags) :
       LET x == e.tags[t]        \* [t, valid, variant (0: refused), exc]
           S == { k \in 1 .. Len(L.tags) : L.tags[k] = x.t } IN
       /\ Must("tag_valid", x.s = B2I(S # {}), x)
       /\ Must("tag_decodes", S # {} => x.k \in S, x)
       /\ Must("tag_refuses", S = {} => x.k = 0 /\ x.exc = "ValueError", x)
  /\ Must("all_patterns", e.exh => {e.ops[j].x : j \in 1 .. Len(e.ops)} = 0 .. Pow2(L.w) - 1, Len(e.ops))

\* ---- C03: layout --------------------------------------------------------------
RECURSIVE PathLo(_, _), PathT(_, _), PathL(_, _), PathV(_, _, _)
PathLo(L, p) == IF p = <<>> THEN 0 ELSE L.lo[Head(p)] + PathLo(L.sub[Head(p)], Tail(p))
PathT(T, p) == IF p = <<>> THEN T ELSE PathT(T.ts[Head(p)], Tail(p))
PathL(L, p) == IF p = <<>> THEN L ELSE PathL(L.sub[Head(p)], Tail(p))
\* the value at a path (through active variants only)
PathV(T, v, p) == IF p = <<>> THEN v
                  ELSE IF IsSum(T) THEN PathV(T.ts[Head(p)], Payload(v), Tail(p))
                  ELSE PathV(T.ts[Head(p)], FieldVal(T, v, Head(p)), Tail(p))
Places(e) ==
  LET T == e.T L == e.L IN
  /\ Must("layout", LayoutOK(T, L), L)
  /\ \A j \in 1 .. Len(e.vals) :
     LET x == e.vals[j] IN
     /\ Must("encoding", Dec(T, L, x.op) = <<TRUE, x.v>>, <<x.v, x.op>>)
     /\ \A k \in 1 .. Len(x.paths) :
          LET q == x.paths[k]        \* [p, lo, hi, got, sub, ext, t]
              ST == PathT(T, q.p) SL == PathL(L, q.p) sv == PathV(T, x.v, q.p) IN
          /\ Must("path_range", q.lo = PathLo(L, q.p) /\ q.hi = q.lo + SL.w, <<x.v, q>>)
          /\ Must("path_slice", Dec(ST, SL, q.got) = <<TRUE, sv>>, <<x.v, q>>)
          /\ Must("sub_encoding", q.sub = q.got, <<x.v, q>>)
          /\ Must("extract", q.ext = q.got, <<x.v, q>>)
          /\ Must("path_tag", IsSum(ST) => q.t = <<q.lo + SL.tlo, q.lo + SL.thi>>, <<x.v, q>>)
     /\ IsSum(T) => /\ Must("tag_slice", x.tag = L.tags[Variant(x.v)], <<x.v, x.tag>>)
                    /\ Must("tag_slice_idx", x.tidx = <<L.tlo, L.thi>>, x.tidx)
                    /\ \A k \in 1 .. Len(T.ts) :
                         Must("match", x.m[k] = B2I(k = Variant(x.v)), <<x.v, k, x.m>>)
                    /\ \A k \in 1 .. Len(x.mt) :      \* match by payload type
                         Must("match_type", x.mt[k] = B2I(T.ts[k] = T.ts[Variant(x.v)]), <<x.v, k, x.mt>>)
  /\ IsSum(T) => \A k \in 1 .. Len(T.ts) : Must("tag_round_trip", e.trt[k] = k, e.trt)

Init == i = 1 /\ seen = 0
Step == /\ i <= Len(Trace)
        /\ CASE Ev.ev = "codec" -> Codec(Ev)
             [] Ev.ev = "valid" -> Validity(Ev)
             [] Ev.ev = "place" -> Places(Ev)
        /\ i' = i + 1 /\ seen' = seen + 1
Finish == i = Len(Trace) + 1 /\ i' = i + 1 /\ UNCHANGED seen /\ PrintT("DONE " \o ToJson([n |-> seen]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<i, seen>>
=============================================================================
