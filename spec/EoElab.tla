-------------------------------- MODULE EoElab --------------------------------
(***************************************************************************)
(* Elaboration: what a written term, type or parameter list denotes in a   *)
(* checker state.  Written syntax is a tree of                             *)
(*   <<"s",name>> symbol   <<"qs",name>> |symbol|   <<"k",":key">> keyword *)
(*   <<"z",i>> <<"q",<<n,d>>>> <<"d",<<n,d>>>> <<"b",bits>> <<"x",bits>>   *)
(*   <<"str",codes>> literals   <<"l",items>> (items)   <<"bad">> no token *)
(* A term that is not accepted elaborates to ERR(reason).                  *)
(*                                                                         *)
(* S.cls    class of the file being read: "sig", "proof" or "ref"          *)
(* S.let    whether let is syntax in this file                             *)
(* S.opt    normalization options [num, dec, hex], [rst]                   *)
(***************************************************************************)
EXTENDS EoSem

IsL(a) == a[1] = "l"
IsK(a) == a[1] = "k"
IsStrA(a) == a[1] = "str"
Reserved(S, n) == \/ n \in {"!","par","Bool","eo::define"}
                  \/ n = "let" /\ S.let
                  \/ n = "Type" /\ S.cls = "sig"
\* a token that is read as a symbol
IsSymA(S, a) == a[1] = "qs" \/ (a[1] = "s" /\ ~Reserved(S, a[2]))
IsWord(a, w) == a[1] = "s" /\ a[2] = w

Look(S, n) == IF n \in DOMAIN S.sym /\ S.sym[n] # <<>> THEN Last(S.sym[n]) ELSE NULL

\* binding a name; what was bound before becomes an overload
BindName(S, n, t) ==
  LET old == IF n \in DOMAIN S.sym THEN S.sym[n] ELSE <<>>
      ov2 == IF old = <<>> THEN S.ov
             ELSE (t :> Append(IF t \in DOMAIN S.ov THEN S.ov[t] ELSE <<>>, n)) @@ S.ov
  IN [S EXCEPT !.sym = (n :> Append(old, t)) @@ @, !.ov = ov2]
RECURSIVE BindAll(_,_,_)
BindAll(S, bs, i) == IF i > Len(bs) THEN S ELSE BindAll(BindName(S, bs[i][1], bs[i][2]), bs, i+1)

SymRec(n, ty) == [nm |-> n, ty |-> ty, at |-> "NONE", ac |-> NULL, pr |-> <<>>]
\* a fresh symbol: <<state, term>>
NewSym(S, tag, n, ty) ==
  <<[S EXCEPT !.tab = Append(@, SymRec(n, ty))], <<tag, Len(S.tab)+1, IF tag = "PARAM" THEN 1 ELSE IF tag = "PROG" THEN 2 ELSE 0>>>>
\* an attribute is given at most once
SetAttr(S, t, at, ac) == IF S.tab[t[2]].at # "NONE" THEN S
                         ELSE [S EXCEPT !.tab[t[2]].at = at, !.tab[t[2]].ac = ac]

RECURSIVE Elab(_,_), ElabList(_,_), ElabItems(_,_,_), ElabType(_,_,_,_), LetBinds(_,_,_,_),
          VarBinds(_,_,_,_), LetVarBinds(_,_,_,_), SkipAttrs(_,_)

FirstErr(ts) == LET es == {i \in DOMAIN ts : IsErr(ts[i])} IN ts[CHOOSE i \in es : \A j \in es : i <= j]
AnyErr(ts) == \E i \in DOMAIN ts : IsErr(ts[i])

BoundVar(S, n, ty) == IF NG(ty) THEN MkLit(S, "eo::var", <<STR(NameCodes(n)), ty>>)
                      ELSE VARt(NameCodes(n), ty)

ElabLit(S, a) ==
  LET norm == S.cls # "sig"
  IN CASE a[1] = "z" -> IF norm /\ S.opt.num THEN QLit(<<a[2], BOne>>) ELSE ZLit(a[2])
       [] a[1] = "q" -> QLit(a[2])
       [] a[1] = "d" -> IF norm /\ S.opt.dec THEN QLit(a[2]) ELSE <<"D", a[2], 0>>
       [] a[1] = "b" -> <<"BIN", a[2], 0>>
       [] a[1] = "x" -> IF norm /\ S.opt.hex THEN <<"BIN", a[2], 0>> ELSE <<"HEX", a[2], 0>>
       [] a[1] = "str" -> STR(a[2])
       [] OTHER -> ERR("not a term")

Elab(S, a) ==
  CASE a[1] = "l" -> ElabList(S, a[2])
    [] a[1] = "s" /\ a[2] = "Bool" -> BOOLT
    [] a[1] = "s" /\ a[2] = "Type" /\ S.cls = "sig" -> TYPE
    [] a[1] \in {"s","qs"} ->
         IF ~IsSymA(S, a) THEN ERR("reserved word")
         ELSE LET t == Look(S, a[2])
              IN IF t = NULL THEN ERR("unknown symbol")
                 ELSE IF t[1] = "BLT" THEN ERR("builtin operator is not a term") ELSE t
    [] OTHER -> ElabLit(S, a)
ElabItems(S, as, i) == IF i > Len(as) THEN <<>>
                       ELSE LET t == Elab(S, as[i])
                            IN IF IsErr(t) THEN <<t>> ELSE <<t>> \o ElabItems(S, as, i+1)

KnownAttrs == {":implicit",":type",":list",":left-assoc",":right-assoc",":left-assoc-nil",
  ":right-assoc-nil",":left-assoc-non-singleton-nil",":right-assoc-non-singleton-nil",
  ":chainable",":pairwise",":binder",":let-binder",":arg-list",":opaque",":syntax",
  ":restrict",":sorry"}
\* annotations of terms: unknown attributes with an optional value
SkipAttrs(as, i) ==
  IF i > Len(as) THEN TRUE
  ELSE IF ~IsK(as[i]) \/ as[i][2] \in KnownAttrs THEN FALSE
  ELSE IF i < Len(as) /\ ~IsK(as[i+1]) THEN SkipAttrs(as, i+2) ELSE SkipAttrs(as, i+1)

ElabList(S, as) ==
  IF as = <<>> THEN ERR("empty application")
  ELSE LET h == as[1]
       IN IF IsWord(h, "!") THEN
            IF Len(as) < 2 THEN ERR("annotation")
            ELSE LET t == Elab(S, as[2])
                 IN IF IsErr(t) THEN t ELSE IF SkipAttrs(as, 3) THEN t ELSE ERR("attribute")
          ELSE IF IsWord(h, "eo::define") \/ (IsWord(h, "let") /\ S.let) THEN
            IF Len(as) # 3 \/ ~IsL(as[2]) THEN ERR("let")
            ELSE LET bs == LetBinds(S, as[2][2], 1, <<>>)
                 IN IF IsErr(bs) THEN bs ELSE Elab(BindAll(S, bs[2], 1), as[3])
          ELSE IF IsL(h) THEN
            IF h[2] # <<>> /\ IsSymA(S, h[2][1]) /\ h[2][1][2] \in {"_","as"}
            THEN LET ts == ElabItems(S, as, 1)
                 IN IF AnyErr(ts) THEN FirstErr(ts) ELSE MkApp(S, ts)
            ELSE ERR("head of application")
          ELSE IF ~IsSymA(S, h) THEN ERR("head of application")
          ELSE LET hd == Look(S, h[2])
               IN IF hd = NULL THEN ERR("unknown symbol")
                  ELSE LET at == AttrOf(S, hd)
                           isB == at \in {"BINDER","LET_BINDER"} /\ Len(as) >= 2
                                  /\ IsL(as[2]) /\ as[2][2] # <<>> /\ IsL(as[2][2][1])
                       IN IF isB THEN
                            LET r == IF at = "BINDER" THEN VarBinds(S, as[2][2], 1, <<>>)
                                     ELSE LetVarBinds(S, as[2][2], 1, <<>>)
                            IN IF IsErr(r) THEN r
                               ELSE LET S2 == r[2]
                                        vl == IF at = "BINDER" THEN MkApp(S2, <<ConsOf(S, hd)>> \o r[3])
                                              ELSE LET pc == ConsOf(S, hd)[2]
                                                   IN MkApp(S2, <<pc[2]>> \o Tup([i \in DOMAIN r[3] |->
                                                              MkApp(S2, <<pc[1], r[3][i][1], r[3][i][2]>>)]))
                                        ts == ElabItems(S2, as, 3)
                                    IN IF AnyErr(ts) THEN FirstErr(ts) ELSE MkApp(S2, <<hd, vl>> \o ts)
                          ELSE LET ts == ElabItems(S, as, 2)
                               IN IF AnyErr(ts) THEN FirstErr(ts) ELSE MkApp(S, <<hd>> \o ts)

\* parallel let: the bound terms are read in the outer scope
LetBinds(S, bs, i, acc) ==   \* <<"ok", bindings>> or ERR
  IF i > Len(bs) THEN <<"ok", acc>>
  ELSE IF ~IsL(bs[i]) THEN ERR("let binding")
  ELSE IF Len(bs[i][2]) # 2 THEN ERR("let binding")
  ELSE IF ~IsSymA(S, bs[i][2][1]) THEN ERR("let binding")
  ELSE LET t == Elab(S, bs[i][2][2])
       IN IF IsErr(t) THEN t ELSE LetBinds(S, bs, i+1, Append(acc, <<bs[i][2][1][2], t>>))

\* variable list of a binder: <<"ok", scope of the body, variables>>
VarBinds(S, bs, i, acc) ==
  IF i > Len(bs) THEN <<"ok", S, acc>>
  ELSE IF ~IsL(bs[i]) THEN ERR("variable list")
  ELSE IF Len(bs[i][2]) # 2 THEN ERR("variable list")
  ELSE IF ~IsSymA(S, bs[i][2][1]) THEN ERR("variable list")
  ELSE LET ty == ElabType(S, bs[i][2][2], FALSE, FALSE)
       IN IF IsErr(ty) THEN ty
          ELSE LET v == BoundVar(S, bs[i][2][1][2], ty)
               IN VarBinds(BindName(S, bs[i][2][1][2], v), bs, i+1, Append(acc, v))
LetVarBinds(S, bs, i, acc) ==
  IF i > Len(bs) THEN <<"ok", BindAll(S, Tup([j \in DOMAIN acc |-> <<acc[j][3], acc[j][1]>>]), 1), acc>>
  ELSE IF ~IsL(bs[i]) THEN ERR("let list")
  ELSE IF Len(bs[i][2]) # 2 THEN ERR("let list")
  ELSE IF ~IsSymA(S, bs[i][2][1]) THEN ERR("let list")
  ELSE LET t == Elab(S, bs[i][2][2])
       IN IF IsErr(t) THEN t
          ELSE LET ty == TypeOf(S, t)
               IN IF ty = NULL THEN ERR("ill-typed")
                  ELSE LetVarBinds(S, bs, i+1,
                         Append(acc, <<BoundVar(S, bs[i][2][1][2], ty), t, bs[i][2][1][2]>>))

\* types; (eo::quote x) only where quote, evaluation of parameters only where eval
ElabType(S, a, quote, eval) ==
  IF quote /\ IsL(a) /\ a[2] # <<>> /\ IsWord(a[2][1], "eo::quote") THEN
    IF Len(a[2]) # 2 THEN ERR("eo::quote")
    ELSE LET t == Elab(S, a[2][2])
         IN IF IsErr(t) THEN t ELSE IF t[1] # "PARAM" THEN ERR("eo::quote of a non-parameter")
            ELSE Mk("QUOTE", <<t>>)
  ELSE LET t == Elab(S, a)
       IN IF IsErr(t) THEN t
          ELSE IF TypeOf(S, t) # TYPE THEN ERR("not a type")
          ELSE IF EV(t) /\ (~NG(t) \/ ~eval) THEN ERR("unevaluated type")
          ELSE t
RECURSIVE ElabTypes(_,_,_,_)
ElabTypes(S, as, i, quote) ==
  IF i > Len(as) THEN <<>>
  ELSE LET t == ElabType(S, as[i], quote, FALSE)
       IN IF IsErr(t) THEN <<t>> ELSE <<t>> \o ElabTypes(S, as, i+1, quote)
ElabFormula(S, a) ==
  LET t == Elab(S, a)
  IN IF IsErr(t) THEN t ELSE IF TypeOf(S, t) # BOOLT THEN ERR("not a formula") ELSE t

\* pairs of terms: <<ok, sequence of <<t1,t2>>>>
RECURSIVE ElabPairs(_,_,_,_)
ElabPairs(S, ps, i, acc) ==
  IF i > Len(ps) THEN <<TRUE, acc>>
  ELSE IF ~IsL(ps[i]) THEN <<FALSE>>
  ELSE IF Len(ps[i][2]) # 2 THEN <<FALSE>>
  ELSE LET ts == ElabItems(S, ps[i][2], 1)
       IN IF AnyErr(ts) THEN <<FALSE>> ELSE ElabPairs(S, ps, i+1, Append(acc, <<ts[1], ts[2]>>))

\* ---------------------------------------------------------------------------
\* Parameter lists: [ok, S, vars (explicit ones), impl (number of implicit ones),
\* opq (ids of opaque ones)].  kind: "RULE", "PROG", "CONST", "DEF"
LitKinds == {"<boolean>","<numeral>","<decimal>","<rational>","<hexadecimal>","<binary>","<string>"}
KindTag(n) == CASE n = "<numeral>" -> "Z" [] n = "<decimal>" -> "D" [] n = "<rational>" -> "Q"
                [] n = "<hexadecimal>" -> "HEX" [] n = "<binary>" -> "BIN" [] n = "<string>" -> "STR"
                [] n = "<boolean>" -> "TF" [] OTHER -> "none"
BadP == [ok |-> FALSE]
RECURSIVE Params(_,_,_,_,_), ParamAttrs(_,_,_,_,_)
\* attributes of parameter v: <<ok, S, implicit, opaque>>
ParamAttrs(r, as, i, v, kind) ==
  LET S == r[2]
      ext == kind \in {"CONST","DEF"}
  IN IF i > Len(as) THEN r
     ELSE IF ~IsK(as[i]) THEN <<FALSE>>
     ELSE LET k == as[i][2]
              hasVal == i < Len(as) /\ ~IsK(as[i+1])
          IN CASE k = ":list" -> ParamAttrs(<<TRUE, SetAttr(S, v, "LIST", NULL), r[3], r[4]>>, as, i+1, v, kind)
               [] k = ":implicit" /\ ext -> ParamAttrs(<<TRUE, S, TRUE, r[4]>>, as, i+1, v, kind)
               [] k = ":opaque" /\ ext -> ParamAttrs(<<TRUE, S, r[3], TRUE>>, as, i+1, v, kind)
               [] k = ":restrict" /\ ext ->
                    IF i = Len(as) THEN <<FALSE>>
                    ELSE IF IsErr(Elab(S, as[i+1])) THEN <<FALSE>> ELSE ParamAttrs(r, as, i+2, v, kind)
               [] k = ":syntax" /\ ext ->
                    IF i = Len(as) THEN <<FALSE>>
                    ELSE IF ~IsSymA(S, as[i+1]) THEN <<FALSE>>
                    ELSE IF as[i+1][2] \notin LitKinds THEN <<FALSE>> ELSE ParamAttrs(r, as, i+2, v, kind)
               [] k \in KnownAttrs -> <<FALSE>>
               [] OTHER -> ParamAttrs(r, as, IF hasVal THEN i+2 ELSE i+1, v, kind)
Params(P, ps, i, kind, acc) ==
  LET S == P.S
  IN IF i > Len(ps) THEN P
     ELSE IF ~IsL(ps[i]) THEN BadP
     ELSE IF Len(ps[i][2]) < 2 THEN BadP
     ELSE IF ~IsSymA(S, ps[i][2][1]) THEN BadP
     ELSE LET n == ps[i][2][1][2]
              ty == ElabType(S, ps[i][2][2], FALSE, FALSE)
          IN IF IsErr(ty) THEN BadP
             ELSE LET x == NewSym(S, "PARAM", n, ty)
                      v == x[2]
                      r == ParamAttrs(<<TRUE, BindName(x[1], n, v), FALSE, FALSE>>, ps[i][2], 3, v, kind)
                  IN IF ~r[1] THEN BadP
                     ELSE Params([ok |-> TRUE, S |-> r[2],
                                  vars |-> IF r[3] THEN P.vars ELSE Append(P.vars, v),
                                  impl |-> P.impl + (IF r[3] THEN 1 ELSE 0),
                                  opq |-> IF r[4] THEN P.opq \cup {v[2]} ELSE P.opq],
                                 ps, i+1, kind, acc)
ParamList(S, a, kind) ==
  IF ~IsL(a) THEN BadP
  ELSE Params([ok |-> TRUE, S |-> S, vars |-> <<>>, impl |-> 0, opq |-> {}], a[2], 1, kind, <<>>)
=============================================================================
