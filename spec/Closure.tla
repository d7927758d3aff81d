-------------------------------- MODULE Closure --------------------------------
(* Family closures.  A closure is a body that is run with a family and arguments; what *)
(* it made is kept and given again to every later request that means the same.  A       *)
(* request is <<closure, family, arguments>> in canonical form: how it was written       *)
(* (which family object, positional or by keyword, in what order, defaults left out)      *)
(* does not matter.  Bodies may request other closures.  A body that fails makes nothing.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* -- the cache as a value: a function from requests to the objects made ------------------
Empty == [r \in {} |-> 0]
Has(c, r) == r \in DOMAIN c
Put(c, r, o) == [q \in DOMAIN c \cup {r} |-> IF q = r THEN o ELSE c[q]]
Made(c) == { c[r] : r \in DOMAIN c }
\* what a request must be answered with: the object made for it, or a new one
AnswerOK(c, r, o, ran) == IF Has(c, r) THEN o = c[r] /\ ran = 0 ELSE o \notin Made(c) /\ ran = 1

\* -- the transition system, checked on its own ----------------------------------------------
\* Requests are written in several ways: a written request w means Means[w].  A stack of
\* running bodies; each may request others before it returns its object.
CONSTANTS Requests, Spellings, MaxObj, MaxCalls
VARIABLES cache, stack, hist, next
vars == <<cache, stack, hist, next>>
Init == cache = Empty /\ stack = <<>> /\ hist = <<>> /\ next = 1
OnStack(r) == \E i \in 1 .. Len(stack) : stack[i] = r
Answer(r, o, ran) == hist' = Append(hist, [r |-> r, o |-> o, ran |-> ran])
Hit(r, s) == /\ Has(cache, r) /\ Len(hist) < MaxCalls
             /\ Answer(r, cache[r], 0) /\ UNCHANGED <<cache, stack, next>>
Enter(r, s) == /\ ~Has(cache, r) /\ ~OnStack(r) /\ Len(hist) + Len(stack) < MaxCalls
               /\ stack' = Append(stack, r) /\ UNCHANGED <<cache, hist, next>>
Return == /\ stack # <<>> /\ next <= MaxObj
          /\ LET r == stack[Len(stack)]
             IN /\ Answer(r, next, 1)
                /\ cache' = Put(cache, r, next)
          /\ next' = next + 1
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Fail == /\ stack # <<>>
        /\ Answer(stack[Len(stack)], 0, 1)
        /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
        /\ UNCHANGED <<cache, next>>
Next == Return \/ Fail \/ \E r \in Requests, s \in Spellings : Hit(r, s) \/ Enter(r, s)
Spec == Init /\ [][Next]_vars

Answered == { i \in DOMAIN hist : hist[i].o # 0 }
\* one object per request, ever
OneResult == \A i, j \in Answered : hist[i].r = hist[j].r => hist[i].o = hist[j].o
\* never the object of another request
NeverMixed == \A i, j \in Answered : hist[i].o = hist[j].o => hist[i].r = hist[j].r
\* a body that returns is run once
RunOnce == \A r \in Requests : Cardinality({ i \in Answered : hist[i].r = r /\ hist[i].ran = 1 }) <= 1
\* judged event by event, as the trace specification does, every history is accepted
Before(i) == LET J == { j \in 1 .. i - 1 : hist[j].o # 0 }
             IN [r \in { hist[j].r : j \in J } |-> hist[CHOOSE j \in J : hist[j].r = r].o]
Judged == \A i \in Answered : AnswerOK(Before(i), hist[i].r, hist[i].o, hist[i].ran)
=============================================================================
