-------------------------------- MODULE Storage --------------------------------
(* Registers and memories.  Every one is a store of words: a register has one word,   *)
(* a memory several.  An access presents an address, a value and an enable; it answers *)
(* with the content before the access and keeps the value if it may.                   *)
(*   kinds: "reg" (written when enabled), "attr" (a register read and written as an     *)
(*          attribute), "ram", "rom" (never written)                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

InRange(s, a) == a \in 1 .. Len(s.w)
Writes(s, a, en) == en /\ s.kind # "rom" /\ InRange(s, a)
\* what an access of address a answers; 0 if it is refused
Answer(s, a) == IF InRange(s, a) THEN <<s.w[a]>> ELSE <<>>
After(s, a, v, en) == IF Writes(s, a, en) THEN [s EXCEPT !.w[a] = v] ELSE s

(* -- the transition system, checked on its own --------------------------------------- *)
CONSTANTS Objs, Words, Vals, MaxOps
VARIABLES st, hist, ans
vars == <<st, hist, ans>>
Kinds == {"reg", "attr", "ram", "rom"}
Size(k) == IF k \in {"reg", "attr"} THEN 1 ELSE Words
Init == /\ st = [o \in {} |-> 0] /\ hist = <<>> /\ ans = <<>>
New(o) == /\ o \notin DOMAIN st
          /\ \E k \in Kinds : \E w \in [1 .. Size(k) -> Vals] :
               LET s == [kind |-> k, w |-> w, init |-> w]
               IN st' = [p \in DOMAIN st \cup {o} |-> IF p = o THEN s ELSE st[p]]
          /\ UNCHANGED <<hist, ans>>
Access(o, a, v, en) ==
  /\ o \in DOMAIN st /\ Len(hist) < MaxOps
  /\ ans' = Answer(st[o], a)
  /\ st' = [st EXCEPT ![o] = After(st[o], a, v, en)]
  /\ hist' = Append(hist, [o |-> o, a |-> a, v |-> v, en |-> en, out |-> Answer(st[o], a)])
Next == \/ \E o \in Objs : New(o)
        \/ \E o \in Objs, a \in 1 .. Words + 1, v \in Vals, en \in BOOLEAN : Access(o, a, v, en)
Spec == Init /\ [][Next]_vars

\* the guarantee in terms of the history alone: an access answers with the value of the latest
\* enabled write to that word of that object before it, with the initial value if there is none
Latest(k, o, a) ==
  LET W == { j \in 1 .. k - 1 : hist[j].o = o /\ hist[j].a = a /\ hist[j].en /\ st[o].kind # "rom" }
  IN IF W = {} THEN st[o].init[a] ELSE hist[CHOOSE j \in W : \A i \in W : i <= j].v
LastWrite ==
  \A k \in 1 .. Len(hist) :
    LET e == hist[k] IN e.out = (IF InRange(st[e.o], e.a) THEN <<Latest(k, e.o, e.a)>> ELSE <<>>)
\* content is always that of the latest write, so a refused or disabled access changes nothing
ContentOK == \A o \in DOMAIN st : \A a \in DOMAIN st[o].w : st[o].w[a] = Latest(Len(hist) + 1, o, a)
\* only the object accessed, and only the word addressed, changes
Frame == [][\A o \in DOMAIN st : \A a \in DOMAIN st[o].w :
              st'[o].w[a] # st[o].w[a] =>
                /\ Len(hist') = Len(hist) + 1 /\ hist'[Len(hist')].o = o /\ hist'[Len(hist')].a = a
                /\ hist'[Len(hist')].en /\ st[o].kind # "rom"]_vars
=============================================================================
