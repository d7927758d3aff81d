------------------------------- MODULE MultiModel --------------------------------
(* The definitions of Multi on one small architecture (nand, or pass the first operand   *)
(* through) and every function of two bits as the IR instruction: a program built one       *)
(* instance at a time computes what Outs says; anything found with n instances is found      *)
(* with n + 1; and a rule is found exactly where a wiring computes the function.              *)
EXTENDS Multi
CONSTANTS MaxN
Bt == [k |-> "bit"]
A == [ins |-> <<[n |-> "a", T |-> Bt, c |-> FALSE], [n |-> "op", T |-> Bt, c |-> TRUE], [n |-> "b", T |-> Bt, c |-> FALSE]>>,
      outs |-> <<Bt>>]
I == [ins |-> <<[n |-> "x", T |-> Bt, c |-> FALSE], [n |-> "y", T |-> Bt, c |-> FALSE]>>, outs |-> <<Bt>>]
B2 == { <<0>>, <<1>> }
AT == [x \in { <<a, o, b>> : a \in B2, o \in B2, b \in B2 } |->
        IF x[2] = <<1>> THEN <<x[1]>> ELSE << <<1 - x[1][1] * x[3][1]>> >>]
IV == { <<x, y>> : x \in B2, y \in B2 }
VARIABLES f, vs, b, vals
mvars == <<f, vs, b, vals>>
Init == /\ f \in [IV -> B2]
        /\ vs = <<>> /\ b = <<>> /\ vals = [iv \in IV |-> <<>>]
Add == \E v \in B2, g \in Funs(I, A, Len(b) + 1, Data(A)) :
         /\ Len(b) < MaxN
         /\ \A k \in Data(A) : g[k] # <<"u">>
         /\ \A p \in Data(I) : Uses(Append(b, g), p) <= 1
         /\ vs' = Append(vs, v) /\ b' = Append(b, g)
         /\ vals' = [iv \in IV |->
              LET src(k) == IF g[k][1] = "i" THEN iv[g[k][2]] ELSE vals[iv][g[k][2]][g[k][3]]
              IN Append(vals[iv], AT[<<src(1), v, src(3)>>])]
         /\ f' = f
Next == Add
Spec == Init /\ [][Next]_mvars
Same == \A iv \in IV : vals[iv] = Outs(A, AT, vs, b, iv, [x \in {} |-> <<>>])
\* a finished program that computes f is a rule, and then a rule is found
Found == (b # <<>> /\ UseOnce(I, b) /\ \A iv \in IV : vals[iv][Len(b)] = <<f[iv]>>) =>
            /\ MHolds(I, A, [iv \in IV |-> <<f[iv]>>], AT, vs, b, <<1>>)
            /\ LegalBinding(I, A, Len(b), b)
            /\ Answer(I, A, [iv \in IV |-> <<f[iv]>>], AT, Len(b)) = "rule"
\* judged once per function
Grow == b = <<>> => \A n \in 1 .. MaxN - 1 :
           Answer(I, A, [iv \in IV |-> <<f[iv]>>], AT, n) = "rule" => Answer(I, A, [iv \in IV |-> <<f[iv]>>], AT, n + 1) = "rule"
\* with one instance: nand, or a pass-through of one operand with the other one wired to the other input
One == b = <<>> => (Answer(I, A, [iv \in IV |-> <<f[iv]>>], AT, 1) = "rule"
                    <=> (\A iv \in IV : f[iv] = <<1 - iv[1][1] * iv[2][1]>>)
                        \/ (\A iv \in IV : f[iv] = iv[1]) \/ (\A iv \in IV : f[iv] = iv[2]))
=============================================================================
