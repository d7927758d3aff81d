-------------------------------- MODULE BlackBox --------------------------------
(* Components as objects with named fields, some of them black boxes.  A black box      *)
(* answers every call with the outputs set last, and remembers the arguments of its        *)
(* latest call.  Discovery from a component lists every black box reachable through          *)
(* components that are not black boxes themselves.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* -- the object graph: fields[o] is a function from field names to objects -------------------
Holds(g, o, f) == f \in DOMAIN g.fields[o]
RECURSIVE Walk(_, _, _)
\* the object a path leads to, 0 if it leads nowhere
Walk(g, o, path) ==
  IF path = <<>> THEN o
  ELSE IF Holds(g, o, Head(path)) THEN Walk(g, g.fields[o][Head(path)], Tail(path)) ELSE 0
Children(g, o) == IF o \in g.bb THEN {} ELSE { g.fields[o][f] : f \in DOMAIN g.fields[o] }
RECURSIVE Closure(_, _)
Closure(g, S) == LET N == S \cup UNION { Children(g, o) : o \in S }
                 IN IF N = S THEN S ELSE Closure(g, N)
BoxesOf(g, o) == Closure(g, {o}) \cap g.bb
\* no black box lies on the way
RECURSIVE Open(_, _, _)
Open(g, o, path) == path = <<>> \/ (o \notin g.bb /\ Open(g, g.fields[o][Head(path)], Tail(path)))
\* L: a set of records [path, o]
ListingOK(g, root, L) ==
  /\ { e.o : e \in L } = BoxesOf(g, root)
  /\ \A e \in L : Walk(g, root, e.path) = e.o /\ Open(g, root, e.path)
  /\ \A e, f \in L : e # f => e.o # f.o /\ e.path # f.path

\* -- the calling protocol ---------------------------------------------------------------------
\* a latch: n arguments, m outputs; ins / outs are <<>> until there was a call / set,
\* afterwards <<the values>>
Fresh(n, m) == [n |-> n, m |-> m, ins |-> <<>>, outs |-> <<>>]
SetOK(l, v) == Len(v) = l.m
AfterSet(l, v) == IF SetOK(l, v) THEN [l EXCEPT !.outs = <<v>>] ELSE l
CallOK(l, a) == l.outs # <<>> /\ Len(a) = l.n
AfterCall(l, a) == IF CallOK(l, a) THEN [l EXCEPT !.ins = <<a>>] ELSE l

\* -- the transition system, checked on its own ----------------------------------------------
CONSTANTS Objs, Fields, Vals, MaxOps
VARIABLES g, latch, log
vars == <<g, latch, log>>
Root == 1
Init == /\ \E B \in SUBSET (Objs \ {Root}) :
             /\ g = [bb |-> B, fields |-> [o \in Objs |-> [f \in {} |-> 0]]]
             /\ latch = [b \in B |-> Fresh(1, 1)]
        /\ log = <<>>
Put(o, f, x) ==
  /\ g' = [g EXCEPT !.fields[o] = [h \in DOMAIN g.fields[o] \cup {f} |-> IF h = f THEN x ELSE g.fields[o][h]]]
  /\ log' = Append(log, <<"put", o>>) /\ UNCHANGED latch
Del(o, f) ==
  /\ Holds(g, o, f)
  /\ g' = [g EXCEPT !.fields[o] = [h \in DOMAIN g.fields[o] \ {f} |-> g.fields[o][h]]]
  /\ log' = Append(log, <<"del", o>>) /\ UNCHANGED latch
Set(b, v) == /\ latch' = [latch EXCEPT ![b] = AfterSet(latch[b], <<v>>)]
             /\ log' = Append(log, <<"set", b, v>>) /\ UNCHANGED g
Call(b, a) == /\ CallOK(latch[b], <<a>>)
              /\ latch' = [latch EXCEPT ![b] = AfterCall(latch[b], <<a>>)]
              /\ log' = Append(log, <<"call", b, a, latch[b].outs[1][1]>>) /\ UNCHANGED g
Next == /\ Len(log) < MaxOps
        /\ \/ \E o \in Objs, f \in Fields, x \in Objs : Put(o, f, x)
           \/ \E o \in Objs, f \in Fields : Del(o, f)
           \/ \E b \in g.bb, v \in Vals : Set(b, v) \/ Call(b, v)
Spec == Init /\ [][Next]_vars
Last(b, what) == LET J == { j \in DOMAIN log : log[j][1] = what /\ log[j][2] = b }
                 IN IF J = {} THEN <<>> ELSE <<<<log[CHOOSE j \in J : \A i \in J : i <= j][3]>>>>
LatchOK == \A b \in g.bb : latch[b].outs = Last(b, "set") /\ latch[b].ins = Last(b, "call")
AnsweredOK == \A k \in DOMAIN log : log[k][1] = "call" =>
                \E j \in 1 .. k - 1 : /\ log[j][1] = "set" /\ log[j][2] = log[k][2] /\ log[j][3] = log[k][4]
                                      /\ \A i \in j + 1 .. k - 1 : ~(log[i][1] = "set" /\ log[i][2] = log[k][2])
\* there is always a listing that is right, made of paths without repeated objects: a depth-first
\* walk finds it
RECURSIVE Paths(_, _, _)
Paths(o, p, seen) ==
  {[path |-> p, o |-> o]} \cup
  (IF o \in g.bb THEN {} ELSE
   UNION { IF g.fields[o][f] \in seen THEN {} ELSE Paths(g.fields[o][f], Append(p, f), seen \cup {g.fields[o][f]}) : f \in DOMAIN g.fields[o] })
Discoverable ==
  LET P == { e \in Paths(Root, <<>>, {Root}) : e.o \in g.bb }
      L == { CHOOSE e \in P : e.o = b : b \in { e.o : e \in P } }
  IN ListingOK(g, Root, L)
=============================================================================
