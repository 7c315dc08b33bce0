-------------------------------- MODULE EoLit --------------------------------
(***************************************************************************)
(* The literal operators: exact values over unbounded integers, rationals, *)
(* fixed-width bit-vectors and strings of code points.  NULL: the operator *)
(* does not evaluate on these literals.                                    *)
(***************************************************************************)
EXTENDS EoTerm

NumCodes == 196608

IsBV(t) == t[1] \in {"BIN","HEX"}
IsRat(t) == t[1] \in {"Q","D"}
Bits(t) == t[2]

BVBin(op, a, b) ==
  IF op = "eo::concat" THEN a \o b
  ELSE IF Len(a) # Len(b) THEN "none"
  ELSE CASE op = "eo::and" -> Tup([i \in 1..Len(a) |-> a[i] * b[i]])
         [] op = "eo::or"  -> Tup([i \in 1..Len(a) |-> IF a[i] + b[i] > 0 THEN 1 ELSE 0])
         [] op = "eo::xor" -> Tup([i \in 1..Len(a) |-> (a[i] + b[i]) % 2])
         [] op = "eo::add" -> BitsOf(Len(a), BAdd(BitsVal(a), BitsVal(b)))
         [] op = "eo::mul" -> BitsOf(Len(a), BMul(BitsVal(a), BitsVal(b)))

\* and, or, xor, add, mul, concat on two literals
EvNary(op, x, y) ==
  IF x[1] # y[1] THEN NULL
  ELSE CASE x[1] = "TF" ->
              (CASE op = "eo::and" -> TF(x[2] /\ y[2])
                 [] op = "eo::or"  -> TF(x[2] \/ y[2])
                 [] op = "eo::xor" -> TF(x[2] # y[2])
                 [] OTHER -> NULL)
         [] x[1] = "Z" ->
              (CASE op = "eo::add" -> ZLit(BAdd(x[2], y[2]))
                 [] op = "eo::mul" -> ZLit(BMul(x[2], y[2]))
                 [] OTHER -> NULL)
         [] IsRat(x) ->
              (CASE op = "eo::add" -> <<x[1], QAdd(x[2], y[2]), 0>>
                 [] op = "eo::mul" -> <<x[1], QMul(x[2], y[2]), 0>>
                 [] OTHER -> NULL)
         [] IsBV(x) ->
              (IF op # "eo::concat" /\ Len(Bits(x)) # Len(Bits(y)) THEN NULL
               ELSE <<x[1], BVBin(op, Bits(x), Bits(y)), 0>>)
         [] x[1] = "STR" -> IF op = "eo::concat" THEN STR(x[2] \o y[2]) ELSE NULL
         [] OTHER -> NULL

EvNot(x) == CASE x[1] = "TF" -> TF(~x[2])
              [] IsBV(x) -> <<x[1], Tup([i \in 1..Len(x[2]) |-> 1 - x[2][i]]), 0>>
              [] OTHER -> NULL
EvNeg(x) == CASE x[1] = "Z" -> ZLit(BNeg(x[2]))
              [] IsRat(x) -> <<x[1], QNeg(x[2]), 0>>
              [] IsBV(x) -> <<x[1], BitsOf(Len(x[2]), BNeg(BitsVal(x[2]))), 0>>
              [] OTHER -> NULL
EvDivMod(op, x, y) ==
  IF x[1] # y[1] THEN NULL
  ELSE CASE x[1] = "Z" ->
              IF BSgn(y[2]) = 0 THEN NULL
              ELSE ZLit(IF op = "eo::zdiv" THEN BDivE(x[2], y[2]) ELSE BModE(x[2], y[2]))
         [] IsBV(x) ->
              IF Len(x[2]) # Len(y[2]) THEN NULL
              ELSE LET a == BitsVal(x[2])
                       b == BitsVal(y[2])
                   IN IF BSgn(b) = 0
                      THEN <<x[1], IF op = "eo::zdiv" THEN Tup([i \in 1..Len(x[2]) |-> 1]) ELSE x[2], 0>>
                      ELSE <<x[1], BitsOf(Len(x[2]), IF op = "eo::zdiv" THEN BDivE(a, b) ELSE BModE(a, b)), 0>>
         [] OTHER -> NULL
EvQdiv(x, y) ==
  IF x[1] # y[1] THEN NULL
  ELSE CASE x[1] = "Z" -> IF BSgn(y[2]) = 0 THEN NULL ELSE QLit(QMk(x[2], y[2]))
         [] IsRat(x) -> IF BSgn(y[2][1]) = 0 THEN NULL ELSE QLit(QDiv(x[2], y[2]))
         [] OTHER -> NULL
EvIsNeg(x) == CASE x[1] = "Z" -> TF(BSgn(x[2]) < 0)
                [] IsRat(x) -> TF(BSgn(x[2][1]) < 0)
                [] OTHER -> NULL
EvLen(x) == IF x[1] \in {"BIN","STR"} THEN ZInt(Len(x[2])) ELSE NULL

\* bits hi..lo of a bit-vector; bit 0 is the last of the sequence
BVExtract(bs, hi, lo) == SubSeq(bs, Len(bs) - hi, Len(bs) - lo)
EvExtract(x, i, j) ==
  IF i[1] # "Z" \/ j[1] # "Z" \/ ~(IsBV(x) \/ x[1] = "STR") THEN NULL
  ELSE LET n == Len(x[2])
           bn == BOfInt(n)
           empty == <<x[1], <<>>, 0>>
       IN IF BSgn(i[2]) < 0 \/ BSgn(j[2]) < 0 \/ BGt(i[2], bn) \/ n = 0 THEN empty
          ELSE LET a == BToInt(i[2])
                   b == IF BCmp(j[2], bn) >= 0 THEN n - 1 ELSE BToInt(j[2])
               IN IF a > b THEN empty
                  ELSE IF IsBV(x) THEN <<x[1], BVExtract(x[2], b, a), 0>>
                  ELSE STR(SubSeq(x[2], a+1, b+1))
EvToZ(x) == CASE x[1] = "Z" -> x
              [] IsRat(x) -> ZLit(QFloor(x[2]))
              [] x[1] = "BIN" -> ZLit(BitsVal(x[2]))
              [] x[1] = "STR" -> IF Len(x[2]) = 1 THEN ZInt(x[2][1]) ELSE NULL
              [] OTHER -> NULL
EvToQ(x) == CASE x[1] = "Q" -> x
              [] x[1] = "D" -> QLit(x[2])
              [] x[1] = "Z" -> QLit(<<x[2], BOne>>)
              [] OTHER -> NULL
EvToBin(w, x) ==
  IF w[1] # "Z" \/ ~BFitsU32(w[2]) THEN NULL
  ELSE CASE x[1] = "Z" -> <<"BIN", BitsOf(BToInt(w[2]), x[2]), 0>>
         [] IsBV(x) -> <<"BIN", BitsOf(BToInt(w[2]), BitsVal(x[2])), 0>>
         [] OTHER -> NULL

QText(q) == IF QIsInt(q) THEN BText(q[1]) ELSE BText(q[1]) \o <<47>> \o BText(q[2])
BinText(bs) == Tup([i \in 1..Len(bs) |-> 48 + bs[i]])
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexText(bs) == Tup([i \in 1..(Len(bs) \div 4) |->
                 HexDigit(8*bs[4*i-3] + 4*bs[4*i-2] + 2*bs[4*i-1] + bs[4*i])])
RECURSIVE HexNat(_)
HexNat(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE HexNat(n \div 16) \o <<HexDigit(n % 16)>>
\* printing of strings: printable characters verbatim, others as \u{hex}
RECURSIVE StrText(_)
StrText(cs) ==
  IF cs = <<>> THEN <<>>
  ELSE (IF cs[1] >= 32 /\ cs[1] <= 126 /\ cs[1] # 92 THEN <<cs[1]>>
        ELSE <<92, 117, 123>> \o HexNat(cs[1]) \o <<125>>) \o StrText(Tail(cs))
\* a literal's text, as eo::to_str of it
EvToStr(x) ==
  CASE x[1] = "STR" -> x
    [] x[1] = "Z" -> IF BSgn(x[2]) >= 0 /\ BSmall(x[2]) /\ BToInt(x[2]) < NumCodes
                     THEN STR(<<BToInt(x[2])>>) ELSE NULL
    [] x[1] = "D" -> STR(QText(x[2]))
    [] x[1] = "Q" -> STR(IF QIsInt(x[2]) THEN BText(x[2][1]) \o <<47, 49>> ELSE QText(x[2]))
    [] x[1] = "BIN" -> STR(<<35, 98>> \o BinText(x[2]))
    [] x[1] = "HEX" -> STR(<<35, 120>> \o HexText(x[2]))
    [] OTHER -> NULL
EvGt(x, y) ==
  IF x[1] # y[1] THEN NULL
  ELSE CASE x[1] = "Z" -> TF(BGt(x[2], y[2]))
         [] IsRat(x) -> TF(QGt(x[2], y[2]))
         [] IsBV(x) -> TF(BGt(BitsVal(x[2]), BitsVal(y[2])))
         [] OTHER -> NULL
\* first position of ys in xs, from position i (0-based), or -1
RECURSIVE FindFrom(_,_,_)
FindFrom(xs, ys, i) ==
  IF i + Len(ys) > Len(xs) THEN -1
  ELSE IF SubSeq(xs, i+1, i+Len(ys)) = ys THEN i
  ELSE FindFrom(xs, ys, i+1)
EvFind(x, y) == IF x[1] = "STR" /\ y[1] = "STR" THEN ZInt(FindFrom(x[2], y[2], 0)) ELSE NULL

EvLiterals(op, a) ==
  CASE op \in ArithOps -> EvNary(op, a[1], a[2])
    [] op = "eo::not" -> EvNot(a[1])
    [] op = "eo::neg" -> EvNeg(a[1])
    [] op \in {"eo::zdiv","eo::zmod"} -> EvDivMod(op, a[1], a[2])
    [] op = "eo::qdiv" -> EvQdiv(a[1], a[2])
    [] op = "eo::is_neg" -> EvIsNeg(a[1])
    [] op = "eo::len" -> EvLen(a[1])
    [] op = "eo::extract" -> IF Len(a) = 3 THEN EvExtract(a[1], a[2], a[3]) ELSE NULL
    [] op = "eo::to_z" -> EvToZ(a[1])
    [] op = "eo::to_q" -> EvToQ(a[1])
    [] op = "eo::to_bin" -> EvToBin(a[1], a[2])
    [] op = "eo::to_str" -> EvToStr(a[1])
    [] op = "eo::gt" -> EvGt(a[1], a[2])
    [] op = "eo::find" -> EvFind(a[1], a[2])
    [] OTHER -> NULL
=============================================================================
