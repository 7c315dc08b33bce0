-------------------------------- MODULE EoHash --------------------------------
(***************************************************************************)
(* eo::hash and eo::cmp as seen from outside: a history H of questions and *)
(* answers, H.h = <<term, value>>s and H.c = <<a, b, is a before b>>s.     *)
(* Which values are given is up to the implementation; an answer fits the  *)
(* history if the same term always has the same value, different terms     *)
(* have different values, and cmp is the strict total order of the values. *)
(***************************************************************************)
EXTENDS Big

HNone == [h |-> <<>>, c |-> <<>>]
HKnown(H, t) == \E k \in DOMAIN H.h : H.h[k][1] = t
HValue(H, t) == H.h[CHOOSE k \in DOMAIN H.h : H.h[k][1] = t][2]
\* cmp is true if the value of the first is larger: x is known to have a larger value than y
Above(H, x, y) ==
  \/ \E k \in DOMAIN H.c : LET q == H.c[k] IN q[1] # q[2] /\ (IF q[3] THEN q[1] = x /\ q[2] = y ELSE q[2] = x /\ q[1] = y)
  \/ HKnown(H, x) /\ HKnown(H, y) /\ BCmp(HValue(H, x), HValue(H, y)) = 1
HTerms(H) == {H.h[k][1] : k \in DOMAIN H.h} \cup {H.c[k][1] : k \in DOMAIN H.c} \cup {H.c[k][2] : k \in DOMAIN H.c}
RECURSIVE Below(_,_,_), Over(_,_,_)
\* what is known to be below (over) an element of new; done: already found
Below(H, new, done) ==
  LET nx == {y \in HTerms(H) \ (done \cup new) : \E x \in new : Above(H, x, y)}
  IN IF nx = {} THEN done \cup new ELSE Below(H, nx, done \cup new)
Over(H, new, done) ==
  LET nx == {y \in HTerms(H) \ (done \cup new) : \E x \in new : Above(H, y, x)}
  IN IF nx = {} THEN done \cup new ELSE Over(H, nx, done \cup new)
\* is it known that the value of x is larger?
Larger(H, x, y) == x # y /\ IF HKnown(H, x) /\ HKnown(H, y) THEN Above(H, x, y) ELSE y \in Below(H, {x}, {})

HashFits(H, t, v) ==
  /\ \A k \in DOMAIN H.h : (H.h[k][1] = t) <=> (H.h[k][2] = v)
  /\ ~HKnown(H, t) =>
       /\ \A u \in Below(H, {t}, {}) \ {t} : HKnown(H, u) => BCmp(v, HValue(H, u)) = 1
       /\ \A u \in Over(H, {t}, {}) \ {t} : HKnown(H, u) => BCmp(HValue(H, u), v) = 1
HashTell(H, t, v) == IF HKnown(H, t) THEN H ELSE [H EXCEPT !.h = Append(@, <<t, v>>)]

CmpFits(H, a, b, r) == IF a = b THEN ~r ELSE IF r THEN ~Larger(H, b, a) ELSE ~Larger(H, a, b)
CmpTell(H, a, b, r) == IF a = b \/ (\E k \in DOMAIN H.c : H.c[k][1] = a /\ H.c[k][2] = b) THEN H ELSE [H EXCEPT !.c = Append(@, <<a, b, r>>)]

\* what a history of fitting answers amounts to
HOrder(H) ==
  /\ \A k, l \in DOMAIN H.h : (H.h[k][1] = H.h[l][1]) <=> (H.h[k][2] = H.h[l][2])
  /\ \A k \in DOMAIN H.c : LET q == H.c[k] IN
       /\ q[1] = q[2] => ~q[3]
       /\ (HKnown(H, q[1]) /\ HKnown(H, q[2])) => (q[3] <=> BCmp(HValue(H, q[1]), HValue(H, q[2])) = 1)
=============================================================================
