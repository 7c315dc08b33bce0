------------------------------- MODULE EoHashMC -------------------------------
(***************************************************************************)
(* All histories of questions about N terms.  Free: any answer that fits.  *)
(* Count: the answers of the implementation's scheme (a term gets the next *)
(* number when it is first asked about, and is kept).                      *)
(***************************************************************************)
EXTENDS EoHash, IOUtils
N == atoi(IOEnv.EO_N)
Depth == atoi(IOEnv.EO_DEPTH)
Terms == 1..N
Vals == {BOfInt(v) : v \in 1..N}
VARIABLES H, num, next, mode, asked
Init == H = HNone /\ num = <<>> /\ next = 1 /\ mode \in {"free", "count"} /\ asked = 0
Number(f, t) == IF \E k \in DOMAIN f : f[k] = t THEN f ELSE Append(f, t)
At(f, t) == BOfInt(CHOOSE k \in DOMAIN f : f[k] = t)
AskHash(t) == IF mode = "free"
              THEN \E v \in Vals : HashFits(H, t, v) /\ H' = HashTell(H, t, v) /\ UNCHANGED num
              ELSE num' = Number(num, t) /\ H' = HashTell(H, t, At(num', t))
AskCmp(a, b) == IF mode = "free"
                THEN \E r \in BOOLEAN : CmpFits(H, a, b, r) /\ H' = CmpTell(H, a, b, r) /\ UNCHANGED num
                ELSE num' = Number(Number(num, a), b) /\ H' = CmpTell(H, a, b, BCmp(At(num', a), At(num', b)) = 1)
Next == /\ asked < Depth /\ asked' = asked + 1 /\ UNCHANGED <<next, mode>>
        /\ \E t, u \in Terms : AskHash(t) \/ AskCmp(t, u)
Spec == Init /\ [][Next]_<<H, num, next, mode, asked>>

Before(H0, a, b) == \E k \in DOMAIN H0.c : H0.c[k][1] = a /\ H0.c[k][2] = b /\ H0.c[k][3]
InvOrder == HOrder(H)
InvIrreflexive == \A a \in Terms : ~Before(H, a, a)
InvAsymmetric == \A a, b \in Terms : ~(Before(H, a, b) /\ Before(H, b, a))
InvStable == \A k, l \in DOMAIN H.c : (H.c[k][1] = H.c[l][1] /\ H.c[k][2] = H.c[l][2]) => H.c[k][3] = H.c[l][3]
InvTotal == \A k, l \in DOMAIN H.c : (H.c[k][1] = H.c[l][2] /\ H.c[k][2] = H.c[l][1] /\ H.c[k][1] # H.c[k][2]) => H.c[k][3] # H.c[l][3]
\* the scheme of the implementation always gives fitting answers
InvScheme == mode = "count" =>
  /\ \A t \in Terms : HashFits(H, t, At(Number(num, t), t))
  /\ \A a, b \in Terms : LET f == Number(Number(num, a), b) IN CmpFits(H, a, b, BCmp(At(f, a), At(f, b)) = 1)
InvTransitive == \A a, b, c \in Terms : ~(Before(H, a, b) /\ Before(H, b, c) /\ Before(H, c, a))
\* fitting answers are exactly those of some order: there always is an injective valuation that gave all of them
InvSomeOrder == \E f \in [Terms -> 0..(2*N)] :
  /\ \A a, b \in Terms : f[a] = f[b] => a = b
  /\ \A k \in DOMAIN H.c : H.c[k][3] <=> f[H.c[k][1]] > f[H.c[k][2]]
  /\ \A k, l \in DOMAIN H.h : BCmp(H.h[k][2], H.h[l][2]) = 1 => f[H.h[k][1]] > f[H.h[l][1]]
=============================================================================
