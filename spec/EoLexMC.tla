------------------------------- MODULE EoLexMC -------------------------------
(***************************************************************************)
(* Every sequence of characters up to a length over small alphabets, and   *)
(* what must hold of reading it.                                           *)
(***************************************************************************)
EXTENDS EoLex, IOUtils

MaxLen == atoi(IOEnv.EO_LEN)
\* numbers; bits and digits; strings and escapes; symbols, white space, comments, parentheses
Alphabets == << <<45, 46, 47, 48, 49, 51>>, <<35, 98, 120, 48, 49, 97, 70>>, <<34, 92, 117, 123, 125, 48, 52>>,
                <<97, 124, 58, 45, 32, 59, 10, 40, 41>>, <<34, 124, 32, 59, 10, 97, 200>> >>
VARIABLES al, cs
Init == al \in DOMAIN Alphabets /\ cs = <<>>
Next == /\ Len(cs) < MaxLen
        /\ \E k \in DOMAIN Alphabets[al] : cs' = Append(cs, Alphabets[al][k])
        /\ al' = al
Spec == Init /\ [][Next]_<<al, cs>>

\* plain arithmetic, as an independent account of numbers
RECURSIVE Nat10(_,_)
Nat10(ds, acc) == IF ds = <<>> THEN acc ELSE Nat10(Tail(ds), 10 * acc + ds[1] - 48)
Tok == Token(cs, 1)
Kind == Tok[1][1]
Lead == SkipWhite(cs, 1)
Lexeme == SubSeq(cs, Lead, Tok[2] - 1)

\* reading advances
InvProgress == Kind \in {"bad", "eof"} \/ (Tok[2] > Lead /\ Tok[2] <= Len(cs) + 1)
\* a token is determined by its own characters and what directly follows it
InvLocal == Kind \in {"bad", "eof"} \/ (Token(Lexeme, 1) = <<Tok[1], Len(Lexeme) + 1>> /\ Token(Lexeme \o <<32, 49>>, 1) = Token(Lexeme, 1)
                                     /\ Token(Lexeme \o <<41>>, 1) = Token(Lexeme, 1))
\* ... and is as long as possible: symbols, numerals and bits do not stop in the middle
InvLong == Kind \in {"s", "k"} => (Tok[2] = Len(cs) + 1 \/ ~IsSymChar(cs[Tok[2]]))
InvLong2 == Kind = "z" /\ cs[Lead] # 45 => (Tok[2] = Len(cs) + 1 \/ ~IsDig(cs[Tok[2]]))
\* white space and comments do not matter
InvWhite == LET R == Read(cs)
            IN /\ Read(<<10>> \o cs) = R /\ Read(<<59, 34, 41, 10>> \o cs) = R
               /\ (R[1] = "ok" => Read(cs \o <<10, 59>>) = R)
\* trees are read one after the other
InvSeq == LET R == Read(cs)
          IN R[1] = "ok" => /\ Read(cs \o <<10>> \o cs) = <<"ok", R[2] \o R[2]>>
                            /\ Read(<<40>> \o cs \o <<10, 41>>) = <<"ok", <<<<"l", R[2]>>>>>>
\* numbers: the value in plain arithmetic
Digs(a, b) == SubSeq(Lexeme, a, b)
InvNum == Kind \in {"z", "q", "d"} =>
  LET neg == Lexeme[1] = 45
      b0 == IF neg THEN 2 ELSE 1
      e == EndDig(Lexeme, b0)
      whole == Nat10(Digs(b0, e-1), 0)
      frac == IF e > Len(Lexeme) THEN 0 ELSE Nat10(Digs(e+1, Len(Lexeme)), 0)
      fl == Len(Lexeme) - e
      sg(x) == IF neg THEN -x ELSE x
  IN CASE Kind = "z" -> Tok[1][2] = BOfInt(sg(whole))
       [] Kind = "d" -> Tok[1][2] = QMk(BOfInt(sg(whole * 10^fl + frac)), BOfInt(10^fl))
       [] Kind = "q" -> frac # 0 /\ Tok[1][2] = QMk(BOfInt(sg(whole)), BOfInt(frac))
\* strings: no longer than what is written, and without backslashes exactly what is written
InvStr == Kind = "str" =>
  /\ Len(Tok[1][2]) <= Len(Tok[1][4])
  /\ ((\A k \in DOMAIN Lexeme : Lexeme[k] # 92) => Tok[1][2] = Tok[1][4])
  /\ \A k \in DOMAIN Tok[1][2] : Tok[1][2][k] < 196608
  \* written without special characters it reads as the same string
  /\ (\A k \in DOMAIN Tok[1][2] : Tok[1][2][k] \notin {34, 92}) => Token(<<34>> \o Tok[1][2] \o <<34>>, 1)[1][2] = Tok[1][2]
InvBits == /\ Kind = "b" => Len(Tok[1][2]) = Len(Lexeme) - 2 /\ \A k \in DOMAIN Tok[1][2] : Tok[1][2][k] = Lexeme[k+2] - 48
           /\ Kind = "x" => Len(Tok[1][2]) = 4 * (Len(Lexeme) - 2)
\* quoting does not change a name
InvQuote == Kind = "s" => Token(<<124>> \o Lexeme \o <<124>>, 1)[1] = <<"qs", Tok[1][2]>>
=============================================================================
