-------------------------------- MODULE EoLex --------------------------------
(***************************************************************************)
(* Reading: from the characters of a file (bytes, as numbers 0..255) to    *)
(* the written syntax of EoElab.                                           *)
(*                                                                         *)
(* Token(cs, i) = <<token, j>>: the token that starts at or after position *)
(* i (white space and comments are skipped) and the position after it.  A  *)
(* token is a leaf of the written syntax, <<"(">>, <<")">>, <<"eof">> or   *)
(* <<"bad">> (no token starts here: the input is rejected).                *)
(* Read(cs) = the trees of cs, or <<"bad">> if cs is not a sequence of     *)
(* complete trees.                                                         *)
(***************************************************************************)
EXTENDS Big

CAscii == <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/","0","1","2","3","4","5","6","7","8","9",
  ":",";","<","=",">","?","@","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V",
  "W","X","Y","Z","[","\\","]","^","_","`","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s",
  "t","u","v","w","x","y","z","{","|","}","~">>
CHex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
\* names are strings; a character that is not printable ASCII is written as a tab and its code
CStr(c) == IF c >= 32 /\ c <= 126 THEN CAscii[c-31] ELSE "\t" \o CHex[(c \div 16) + 1] \o CHex[(c % 16) + 1]
RECURSIVE NameOf(_)
NameOf(cs) == IF cs = <<>> THEN "" ELSE CStr(cs[1]) \o NameOf(Tail(cs))

IsDig(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
IsHexDig(c) == IsDig(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexOf(c) == IF IsDig(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsWhite(c) == c \in {32, 9, 13, 10}
\* + - / * = % ? ! . $ _ ~ & ^ < > @
SymExtra == {43, 45, 47, 42, 61, 37, 63, 33, 46, 36, 95, 126, 38, 94, 60, 62, 64}
IsSymStart(c) == IsAlpha(c) \/ c \in SymExtra
IsSymChar(c) == IsSymStart(c) \/ IsDig(c) \/ c = 58

At(cs, i) == IF i <= Len(cs) THEN cs[i] ELSE -1
\* the first position >= i that is not of the class
RECURSIVE EndDig(_,_), EndHex(_,_), EndBit(_,_), EndSym(_,_), SkipWhite(_,_), SkipLine(_,_), FindChar(_,_,_)
EndDig(cs, i) == IF i <= Len(cs) /\ IsDig(At(cs,i)) THEN EndDig(cs, i+1) ELSE i
EndHex(cs, i) == IF i <= Len(cs) /\ IsHexDig(At(cs,i)) THEN EndHex(cs, i+1) ELSE i
EndBit(cs, i) == IF At(cs,i) \in {48,49} THEN EndBit(cs, i+1) ELSE i
EndSym(cs, i) == IF i <= Len(cs) /\ IsSymChar(At(cs,i)) THEN EndSym(cs, i+1) ELSE i
SkipLine(cs, i) == IF i > Len(cs) THEN i ELSE IF cs[i] = 10 THEN i+1 ELSE SkipLine(cs, i+1)
SkipWhite(cs, i) == IF i > Len(cs) THEN i
                    ELSE IF IsWhite(cs[i]) THEN SkipWhite(cs, i+1)
                    ELSE IF cs[i] = 59 THEN SkipWhite(cs, SkipLine(cs, i+1)) ELSE i
FindChar(cs, c, i) == IF i > Len(cs) THEN 0 ELSE IF cs[i] = c THEN i ELSE FindChar(cs, c, i+1)

\* --- numbers ----------------------------------------------------------------
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN BOne ELSE BMul(Ten(n-1), BOfInt(10))
Signed(neg, b) == IF neg THEN BNeg(b) ELSE b
\* the number spelled by digits, possibly a separator (46 or 47) and digits
NumberLeaf(neg, a, sep, b) ==
  CASE sep = 0 -> <<"z", Signed(neg, BOfDigits(a)), Len(a) > 1 /\ a[1] = 48>>
    [] sep = 46 -> <<"d", QMk(Signed(neg, BOfDigits(a \o b)), Ten(Len(b)))>>
    [] sep = 47 -> IF BSgn(BOfDigits(b)) = 0 THEN <<"zero">> ELSE <<"q", QMk(Signed(neg, BOfDigits(a)), BOfDigits(b))>>
\* does the symbol spell a negative number?
NegNumber(s) ==
  LET e == EndDig(s, 2)
  IN IF s[1] # 45 \/ e = 2 THEN <<>>
     ELSE IF e > Len(s) THEN NumberLeaf(TRUE, SubSeq(s, 2, e-1), 0, <<>>)
     ELSE IF s[e] \in {46, 47} /\ EndDig(s, e+1) > e+1 /\ EndDig(s, e+1) > Len(s)
     THEN NumberLeaf(TRUE, SubSeq(s, 2, e-1), s[e], SubSeq(s, e+1, Len(s)))
     ELSE <<>>

\* --- strings ------------------------------------------------------------------
\* the text between the quotes from position i on, "" being a quote: <<characters, position after>>
\* or <<>> if it is not terminated
RECURSIVE StrBody(_,_,_)
StrBody(cs, i, acc) ==
  IF i > Len(cs) THEN <<>>
  ELSE IF cs[i] # 34 THEN StrBody(cs, i+1, Append(acc, cs[i]))
  ELSE IF At(cs, i+1) = 34 THEN StrBody(cs, i+2, Append(acc, 34))
  ELSE <<acc, i+1>>
RECURSIVE HexVal(_,_)
HexVal(ds, acc) == IF ds = <<>> THEN acc ELSE HexVal(Tail(ds), 16 * acc + HexOf(ds[1]))
\* the escape sequence \ud3d2d1d0 or \u{d..} (at most five digits, code < 196608) at i: <<code, after>>
Escape(cs, i) ==
  IF At(cs, i+1) # 117 THEN <<>>
  ELSE IF At(cs, i+2) = 123
  THEN LET e == EndHex(cs, i+3)
           n == e - (i+3)
           v == IF n \in 1..5 THEN HexVal(SubSeq(cs, i+3, e-1), 0) ELSE 0
       IN IF n \in 1..5 /\ At(cs, e) = 125 /\ v < 196608 THEN <<v, e+1>> ELSE <<>>
  ELSE IF i+5 <= Len(cs) /\ \A k \in i+2..i+5 : IsHexDig(cs[k]) THEN <<HexVal(SubSeq(cs, i+2, i+5), 0), i+6>>
  ELSE <<>>
RECURSIVE Unescape(_,_)
Unescape(cs, i) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET e == IF cs[i] = 92 THEN Escape(cs, i) ELSE <<>>
       IN IF e = <<>> THEN <<cs[i]>> \o Unescape(cs, i+1) ELSE <<e[1]>> \o Unescape(cs, e[2])
\* the names in a path
RECURSIVE Comps(_,_)
Comps(cs, i) ==
  LET e == FindChar(cs, 47, i)
  IN IF e = 0 THEN <<NameOf(SubSeq(cs, i, Len(cs)))>> ELSE <<NameOf(SubSeq(cs, i, e-1))>> \o Comps(cs, e+1)
PathOf(cs) == (IF At(cs, 1) = 47 THEN <<"/">> ELSE <<>>) \o Comps(cs, 1)

\* --- tokens --------------------------------------------------------------------
RECURSIVE BitsOfHex(_)
BitsOfHex(ds) == IF ds = <<>> THEN <<>>
                 ELSE LET h == HexOf(ds[1])
                      IN <<h \div 8, (h \div 4) % 2, (h \div 2) % 2, h % 2>> \o BitsOfHex(Tail(ds))
RECURSIVE BitsOfBin(_)
BitsOfBin(ds) == IF ds = <<>> THEN <<>> ELSE <<ds[1] - 48>> \o BitsOfBin(Tail(ds))

BadTok(i) == <<<<"bad">>, i>>
Token(cs, i0) ==
  LET i == SkipWhite(cs, i0)
      c == At(cs, i)
  IN CASE c = -1 -> <<<<"eof">>, i>>
       [] c = 40 -> <<<<"(">>, i+1>>
       [] c = 41 -> <<<<")">>, i+1>>
       [] c = 124 -> LET e == FindChar(cs, 124, i+1)
                     IN IF e = 0 THEN BadTok(i) ELSE <<<<"qs", NameOf(SubSeq(cs, i+1, e-1))>>, e+1>>
       [] c = 35 -> LET eb == EndBit(cs, i+2)
                        eh == EndHex(cs, i+2)
                    IN IF At(cs, i+1) = 98 /\ eb > i+2 THEN <<<<"b", BitsOfBin(SubSeq(cs, i+2, eb-1))>>, eb>>
                       ELSE IF At(cs, i+1) = 120 /\ eh > i+2 THEN <<<<"x", BitsOfHex(SubSeq(cs, i+2, eh-1))>>, eh>>
                       ELSE BadTok(i)
       [] c = 34 -> LET b == StrBody(cs, i+1, <<>>)
                    IN IF b = <<>> THEN BadTok(i)
                       ELSE IF \E k \in DOMAIN b[1] : b[1][k] > 127 THEN BadTok(i)
                       ELSE <<<<"str", Unescape(b[1], 1), PathOf(b[1]), b[1]>>, b[2]>>
       [] c = 58 -> IF i+1 <= Len(cs) /\ IsSymStart(At(cs, i+1))
                    THEN LET e == EndSym(cs, i+1) IN <<<<"k", NameOf(SubSeq(cs, i, e-1))>>, e>>
                    ELSE BadTok(i)
       [] IsDig(c) -> LET e == EndDig(cs, i)
                          s == At(cs, e)
                          e2 == EndDig(cs, e+1)
                      IN IF s \notin {46, 47} THEN <<NumberLeaf(FALSE, SubSeq(cs, i, e-1), 0, <<>>), e>>
                         ELSE IF e2 = e+1 THEN BadTok(i)
                         ELSE <<NumberLeaf(FALSE, SubSeq(cs, i, e-1), s, SubSeq(cs, e+1, e2-1)), e2>>
       [] IsSymStart(c) -> LET e == EndSym(cs, i)
                               s == SubSeq(cs, i, e-1)
                               n == NegNumber(s)
                           IN IF n # <<>> THEN <<n, e>> ELSE <<<<"s", NameOf(s)>>, e>>
       [] OTHER -> BadTok(i)

\* --- trees ----------------------------------------------------------------------
\* st: the open lists, innermost last; the first entry is the sequence of finished trees
RECURSIVE ReadFrom(_,_,_)
ReadFrom(cs, i, st) ==
  LET t == Token(cs, i)
      k == t[1][1]
      n == Len(st)
  IN CASE k = "bad" -> <<"bad">>
       [] k = "eof" -> IF n = 1 THEN <<"ok", st[1]>> ELSE <<"bad">>
       [] k = "(" -> ReadFrom(cs, t[2], Append(st, <<>>))
       [] k = ")" -> IF n = 1 THEN <<"bad">>
                     ELSE ReadFrom(cs, t[2], [SubSeq(st, 1, n-1) EXCEPT ![n-1] = Append(@, <<"l", st[n]>>)])
       [] OTHER -> ReadFrom(cs, t[2], [st EXCEPT ![n] = Append(@, t[1])])
Read(cs) == ReadFrom(cs, 1, <<<<>>>>)
=============================================================================
