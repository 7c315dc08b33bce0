-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Unbounded integers, rationals, bit-vectors and decimal text.  TLC's own *)
(* integers have 32 bits, the language's numerals have no bound, so that   *)
(* numerals are explicit: a magnitude is a little-endian sequence of       *)
(* base-10000 limbs without leading zeros, an integer is a sequence        *)
(* <<sign>> \o magnitude with sign -1, 0, 1.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000

\* --- magnitudes -----------------------------------------------------------
RECURSIVE MTrim(_)
MTrim(m) == IF m = <<>> THEN m
            ELSE IF m[Len(m)] = 0 THEN MTrim(SubSeq(m, 1, Len(m)-1)) ELSE m

MAt(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MCmpFrom(_,_,_)
MCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE MCmpFrom(a, b, i-1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE MCmpFrom(a, b, Len(a))

RECURSIVE MAddFrom(_,_,_,_)
MAddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == MAt(a,i) + MAt(b,i) + c
       IN <<s % Base>> \o MAddFrom(a, b, i+1, s \div Base)
MAdd(a, b) == MAddFrom(a, b, 1, 0)

RECURSIVE MSubFrom(_,_,_,_)
MSubFrom(a, b, i, c) ==   \* a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - MAt(b,i) - c
       IN IF s < 0 THEN <<s + Base>> \o MSubFrom(a, b, i+1, 1)
                   ELSE <<s>> \o MSubFrom(a, b, i+1, 0)
MSub(a, b) == MTrim(MSubFrom(a, b, 1, 0))

RECURSIVE MMulSmallFrom(_,_,_,_)
MMulSmallFrom(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c
       IN <<s % Base>> \o MMulSmallFrom(a, d, i+1, s \div Base)
MMulSmall(a, d) == IF d = 0 THEN <<>> ELSE MMulSmallFrom(a, d, 1, 0)

RECURSIVE MMulFrom(_,_,_)
MMulFrom(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET hi == MMulFrom(a, b, i+1)
           sh == IF hi = <<>> THEN <<>> ELSE <<0>> \o hi
       IN MAdd(MMulSmall(a, b[i]), sh)
MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MTrim(MMulFrom(a, b, 1))

\* the digit q in lo..hi with q*b <= r < (q+1)*b
RECURSIVE MDigit(_,_,_,_)
MDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MCmp(MMulSmall(b, mid), r) <= 0 THEN MDigit(r, b, mid, hi)
                                             ELSE MDigit(r, b, lo, mid-1)
RECURSIVE MDivFrom(_,_,_,_,_)
MDivFrom(a, b, i, q, r) ==
  IF i = 0 THEN <<MTrim(q), r>>
  ELSE LET r1 == MTrim(<<a[i]>> \o r)
           d  == IF MCmp(r1, b) < 0 THEN 0 ELSE MDigit(r1, b, 1, Base-1)
           r2 == IF d = 0 THEN r1 ELSE MSub(r1, MMulSmall(b, d))
       IN MDivFrom(a, b, i-1, <<d>> \o q, r2)
\* <<quotient, remainder>> of magnitudes, b # <<>>
MDivMod(a, b) == MDivFrom(a, b, Len(a), <<>>, <<>>)

RECURSIVE MGcd(_,_)
MGcd(a, b) == IF b = <<>> THEN a ELSE MGcd(b, MDivMod(a, b)[2])

\* --- integers -------------------------------------------------------------
BZero == <<0>>
BOne  == <<1, 1>>
BMk(s, m) == IF m = <<>> THEN BZero ELSE <<s>> \o m
BMag(x) == Tail(x)
BSgn(x) == x[1]
RECURSIVE MOfNat(_)
MOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MOfNat(n \div Base)
BOfInt(n) == IF n < 0 THEN BMk(-1, MOfNat(-n)) ELSE BMk(1, MOfNat(n))
BNeg(x) == BMk(-BSgn(x), BMag(x))
BAbs(x) == BMk(1, BMag(x))
BAdd(x, y) ==
  IF BSgn(x) = 0 THEN y ELSE IF BSgn(y) = 0 THEN x
  ELSE IF BSgn(x) = BSgn(y) THEN BMk(BSgn(x), MAdd(BMag(x), BMag(y)))
  ELSE LET c == MCmp(BMag(x), BMag(y))
       IN IF c = 0 THEN BZero
          ELSE IF c > 0 THEN BMk(BSgn(x), MSub(BMag(x), BMag(y)))
          ELSE BMk(BSgn(y), MSub(BMag(y), BMag(x)))
BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == BMk(BSgn(x) * BSgn(y), MMul(BMag(x), BMag(y)))
BCmp(x, y) == BSgn(BSub(x, y))
BLt(x, y) == BCmp(x, y) < 0
BGt(x, y) == BCmp(x, y) > 0
\* Euclidean division: 0 <= remainder < |y|
BDivE(x, y) ==
  LET dm == MDivMod(BMag(x), BMag(y))
      q  == IF BSgn(x) >= 0 THEN BMk(1, dm[1])
            ELSE IF dm[2] = <<>> THEN BMk(-1, dm[1])
            ELSE BMk(-1, MAdd(dm[1], <<1>>))
  IN IF BSgn(y) < 0 THEN BNeg(q) ELSE q
BModE(x, y) ==
  LET r == MDivMod(BMag(x), BMag(y))[2]
  IN IF BSgn(x) >= 0 \/ r = <<>> THEN BMk(1, r) ELSE BMk(1, MSub(BMag(y), r))
\* does x fit 31 bits, and its value
BSmall(x) == Len(x) <= 3 \/ (Len(x) = 4 /\ x[4] < 21)
BToInt(x) == LET m == BMag(x)
             IN BSgn(x) * (MAt(m,1) + Base * MAt(m,2) + Base*Base * MAt(m,3))
\* unsigned 32-bit range, the bound of widths and indices (2^32 = 42 9496 7296)
BFitsU32(x) == BSgn(x) >= 0 /\ MCmp(BMag(x), <<7296, 9496, 42>>) < 0
RECURSIVE BPow2(_)
BPow2(n) == IF n = 0 THEN BOne
            ELSE IF n <= 13 THEN BOfInt(2^n)
            ELSE LET h == BPow2(n \div 2)
                     hh == BMul(h, h)
                 IN IF n % 2 = 0 THEN hh ELSE BMul(hh, BOfInt(2))

\* --- decimal text, as character codes -------------------------------------
RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatDigits(n \div 10), 48 + (n % 10))
Pad4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE MText(_)
MText(m) == IF m = <<>> THEN <<48>>
            ELSE IF Len(m) = 1 THEN NatDigits(m[1])
            ELSE MText(Tail(m)) \o Pad4(Head(m))
BText(x) == IF BSgn(x) < 0 THEN <<45>> \o MText(BMag(x)) ELSE MText(BMag(x))
\* magnitude of a sequence of decimal digit codes
RECURSIVE MOfDigits(_)
MOfDigits(ds) ==
  IF ds = <<>> THEN <<>>
  ELSE LET n == Len(ds)
           k == IF n >= 4 THEN 4 ELSE n
           part == SubSeq(ds, n-k+1, n)
           v == IF k = 4 THEN (part[1]-48)*1000 + (part[2]-48)*100 + (part[3]-48)*10 + (part[4]-48)
                ELSE IF k = 3 THEN (part[1]-48)*100 + (part[2]-48)*10 + (part[3]-48)
                ELSE IF k = 2 THEN (part[1]-48)*10 + (part[2]-48)
                ELSE part[1]-48
       IN MTrim(<<v>> \o MOfDigits(SubSeq(ds, 1, n-k)))
BOfDigits(ds) == BMk(1, MOfDigits(ds))

\* --- rationals: <<numerator, denominator>>, reduced, denominator > 0 ------
QMk(n, d) ==
  IF BSgn(n) = 0 THEN <<BZero, BOne>>
  ELSE LET g == MGcd(BMag(n), BMag(d))
           s == BSgn(n) * BSgn(d)
       IN <<BMk(s, MDivMod(BMag(n), g)[1]), BMk(1, MDivMod(BMag(d), g)[1])>>
QAdd(p, q) == QMk(BAdd(BMul(p[1], q[2]), BMul(q[1], p[2])), BMul(p[2], q[2]))
QMul(p, q) == QMk(BMul(p[1], q[1]), BMul(p[2], q[2]))
QNeg(p) == <<BNeg(p[1]), p[2]>>
QDiv(p, q) == QMk(BMul(p[1], q[2]), BMul(p[2], q[1]))
QGt(p, q) == BGt(BMul(p[1], q[2]), BMul(q[1], p[2]))
QFloor(p) == BDivE(p[1], p[2])
QIsInt(p) == p[2] = BOne

\* --- bit-vectors: sequences of 0/1, most significant first ----------------
RECURSIVE BitsVal(_)
BitsVal(bs) ==
  IF bs = <<>> THEN BZero
  ELSE IF Len(bs) <= 13
  THEN LET RECURSIVE V(_)
           V(i) == IF i = 0 THEN 0 ELSE 2 * V(i-1) + bs[i]
       IN BOfInt(V(Len(bs)))
  ELSE LET n == Len(bs)
           lo == SubSeq(bs, n-12, n)
       IN BAdd(BMul(BitsVal(SubSeq(bs, 1, n-13)), BOfInt(8192)), BitsVal(lo))
RECURSIVE IntBits(_,_)
IntBits(w, n) == IF w = 0 THEN <<>> ELSE Append(IntBits(w-1, n \div 2), n % 2)
RECURSIVE NatBits(_,_)
NatBits(w, x) ==  \* low w bits of x >= 0
  IF w = 0 THEN <<>>
  ELSE IF w <= 13 THEN IntBits(w, BToInt(BModE(x, BOfInt(8192))))
  ELSE LET dm == MDivMod(BMag(x), <<8192>>)
       IN NatBits(w-13, BMk(1, dm[1])) \o IntBits(13, BToInt(BMk(1, dm[2])))
\* x modulo 2^w
BitsOf(w, x) == IF BSgn(x) >= 0 THEN NatBits(w, x)
                ELSE NatBits(w, BModE(x, BPow2(w)))
=============================================================================
