------------------------------- MODULE EoChecker -------------------------------
(***************************************************************************)
(* The checker as a state machine: the effect of every command.            *)
(*                                                                         *)
(* Further fields of S:                                                    *)
(*   scopes   open scopes, each [sym, ov, asm, nas]: what to restore, and  *)
(*            whether a local assumption opened it                         *)
(*   asms     formulas assumed                                             *)
(*   rules    rule name |-> RULE; ri: rule id |-> what was declared        *)
(*   inc      files included;  hasref, nf, refs: the reference             *)
(*   sorry    an accepted step used a rule marked :sorry                   *)
(*   H        the known values of eo::hash (EoHash)                       *)
(*   cnt      rule id |-> number of accepted steps (if opt.count)          *)
(*   dir      directory of the file being read;  out: what echo printed    *)
(*                                                                         *)
(* Exec(S, cmd) = [ok, S, ctl, at]: whether the command is accepted, the   *)
(* state after it (unchanged if it is rejected), ctl = "exit" if the file  *)
(* ends here, and where it was rejected (path of <<file, command>>).       *)
(***************************************************************************)
EXTENDS EoElab, EoLex

\* S.job selects the file system: FilesOf is a sequence of [path, cmds, link] (link = <<>> or
\* the path it links to), DirsOf the directories; a path is a sequence of names
CONSTANTS FilesOf(_), DirsOf(_)

Bad(S) == [ok |-> FALSE, S |-> S, ctl |-> "next", at |-> <<>>]
Good(S) == [ok |-> TRUE, S |-> S, ctl |-> "next", at |-> <<>>]

BuiltinSym ==
  LET ops == {"->","_","as","eo::as"} \cup LitOps
      base == [n \in ops |-> <<BLT(n)>>]
  IN base @@ ("true" :> <<TRUEt>>) @@ ("false" :> <<FALSEt>>) @@ ("eo::List" :> <<ListTy>>)
       @@ ("eo::List::nil" :> <<ListNil>>) @@ ("eo::List::cons" :> <<ListCons>>)

BuiltinTab ==
  <<SymRec("eo::self", ANY), SymRec("eo::List", TYPE), SymRec("eo::List::nil", ListTy),
    SymRec("T", TYPE),
    [SymRec("eo::List::cons", FunType(<<PARAM(ListTId), ListTy>>, ListTy))
        EXCEPT !.at = "RA_NIL", !.ac = ListNil],
    SymRec("eo::Proof", TYPE)>>

NoLit == [k \in LitTags \cup {"none"} |-> NULL]
InitS(job, opt, cls, dir) ==
  [job |-> job, tab |-> BuiltinTab, sym |-> BuiltinSym, ov |-> <<>>, lit |-> [NoLit EXCEPT !["TF"] = BOOLT],
   scopes |-> <<>>, asms |-> <<>>, rules |-> <<>>, ri |-> <<>>, inc |-> {}, hasref |-> FALSE,
   nf |-> NULL, refs |-> {}, sorry |-> FALSE, cnt |-> <<>>, cls |-> cls, let |-> (cls # "sig" /\ opt.let),
   opt |-> opt, dir |-> dir, out |-> <<>>, H |-> HNone]

Level(S) == Cardinality({i \in DOMAIN S.scopes : S.scopes[i].asm})
Push(S, asm) == [S EXCEPT !.scopes = Append(@, [sym |-> S.sym, ov |-> S.ov, asm |-> asm, nas |-> Len(S.asms)])]
PopN(S, n) ==   \* close the last n scopes
  LET sc == S.scopes[Len(S.scopes) - n + 1]
  IN [S EXCEPT !.sym = sc.sym, !.ov = sc.ov, !.scopes = SubSeq(@, 1, Len(@) - n)]
\* what was declared in a command's own scope, seen from outside: symbols persist, names do not
Leave(S0, S1) == [S1 EXCEPT !.sym = S0.sym, !.ov = S0.ov]

IsSorted(a) == TRUE
Item(as, i) == IF i <= Len(as) THEN as[i] ELSE <<"none", "">>
KeyAt(as, i, k) == i <= Len(as) /\ as[i] = <<"k", k>>
\* (a leading zero is not allowed)
NumArg(a) == IF a[1] # "z" THEN -1 ELSE IF Len(a) > 2 /\ a[3] THEN -1 ELSE IF BSgn(a[2]) < 0 \/ Len(a[2]) > 3 THEN -1 ELSE BToInt(a[2])  \* (arities beyond 10^8 are not modelled)

\* ---------------------------------------------------------------------------
\* Attributes of constants: <<ok, attributes>>, attributes a seq of <<name, term>>
CAttrTerm == {":left-assoc-nil",":right-assoc-nil",":left-assoc-non-singleton-nil",
  ":right-assoc-non-singleton-nil",":chainable",":pairwise",":binder",":arg-list"}
AttrName(k) == CASE k = ":binder" -> "BINDER" [] k = ":let-binder" -> "LET_BINDER"
  [] k = ":right-assoc" -> "RA" [] k = ":left-assoc" -> "LA"
  [] k = ":right-assoc-nil" -> "RA_NIL" [] k = ":left-assoc-nil" -> "LA_NIL"
  [] k = ":right-assoc-non-singleton-nil" -> "RA_NS_NIL"
  [] k = ":left-assoc-non-singleton-nil" -> "LA_NS_NIL"
  [] k = ":chainable" -> "CHAINABLE" [] k = ":pairwise" -> "PAIRWISE" [] k = ":arg-list" -> "ARG_LIST"
AttrRank(n) == CASE n = "BINDER" -> 1 [] n = "LET_BINDER" -> 2 [] n = "RA" -> 3 [] n = "LA" -> 4
  [] n = "RA_NIL" -> 5 [] n = "LA_NIL" -> 6 [] n = "RA_NS_NIL" -> 7 [] n = "LA_NS_NIL" -> 8
  [] n = "CHAINABLE" -> 9 [] n = "PAIRWISE" -> 10 [] n = "ARG_LIST" -> 11
RECURSIVE ConstAttrs(_,_,_,_)
ConstAttrs(S, as, i, acc) ==
  IF i > Len(as) THEN <<TRUE, acc>>
  ELSE IF ~IsK(as[i]) THEN <<FALSE>>
  ELSE LET k == as[i][2]
       IN IF k \in {":right-assoc", ":left-assoc"} THEN ConstAttrs(S, as, i+1, Append(acc, <<AttrName(k), NULL>>))
          ELSE IF k \in CAttrTerm THEN
            IF i = Len(as) THEN <<FALSE>>
            ELSE LET t == Elab(S, as[i+1])
                 IN IF IsErr(t) THEN <<FALSE>> ELSE ConstAttrs(S, as, i+2, Append(acc, <<AttrName(k), t>>))
          ELSE IF k = ":let-binder" THEN
            IF i = Len(as) THEN <<FALSE>>
            ELSE IF ~IsL(as[i+1]) THEN <<FALSE>>
            ELSE LET p == ElabPairs(S, <<as[i+1]>>, 1, <<>>)
                 IN IF ~p[1] THEN <<FALSE>>
                    ELSE ConstAttrs(S, as, i+2, Append(acc, <<AttrName(k), Mk("TUPLE", p[2][1])>>))
          ELSE IF k \in KnownAttrs THEN <<FALSE>>
          ELSE ConstAttrs(S, as, IF i < Len(as) /\ ~IsK(as[i+1]) THEN i+2 ELSE i+1, acc)
\* the attribute that counts: <<attribute, term>>.  A term with parameters is abstracted.
Abstract(t) ==
  IF t = NULL \/ ~NG(t) THEN t
  ELSE LET ps == ParamsOf(t)
           RECURSIVE Sq(_)
           Sq(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y
                                             IN <<PARAM(m)>> \o Sq(s \ {m})
       IN Mk("PARAMD", <<Mk("TUPLE", Sq(ps)), t>>)
FirstAttr(acc) ==
  IF acc = <<>> THEN <<"NONE", NULL>>
  ELSE LET i == CHOOSE i \in DOMAIN acc : \A j \in DOMAIN acc :
                  AttrRank(acc[i][1]) < AttrRank(acc[j][1]) \/ (AttrRank(acc[i][1]) = AttrRank(acc[j][1]) /\ i <= j)
       IN <<acc[i][1], Abstract(acc[i][2])>>
UnknownAttrsOnly(as, i) == SkipAttrs(as, i)

\* ---------------------------------------------------------------------------
DeclareConst(S, as) ==
  IF Len(as) < 3 THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) THEN Bad(S)
  ELSE LET ty == ElabType(S, as[3], FALSE, TRUE)
           at == ConstAttrs(S, as, 4, <<>>)
       IN IF IsErr(ty) THEN Bad(S) ELSE IF ~at[1] THEN Bad(S)
          ELSE LET x == NewSym(S, "CONST", as[2][2], ty)
                   fa == FirstAttr(at[2])
               IN Good(BindName(SetAttr(x[1], x[2], fa[1], fa[2]), as[2][2], x[2]))

\* type of a symbol whose type arguments are not determined by its arguments: it takes its
\* return type as an opaque argument
Disamb(S, pat, full, n) ==
  LET x == NewSym(S, "PROG", n, Mk("PTY", <<TYPE, TYPE>>))
      pr == x[2]
      S2 == [x[1] EXCEPT !.tab[pr[2]].at = "PROGRAM", !.tab[pr[2]].pr = <<<<<<pr, pat>>, full>>>>]
      v == NewSym(S2, "PARAM", n, TYPE)
  IN <<v[1], Mk("FUN", <<Mk("QUOTE", <<v[2]>>), Mk("APPLY", <<pr, v[2]>>)>>)>>

RECURSIVE PConstType(_,_,_,_,_)
\* parameters vs[i..1] from the last to the first: <<ok, type, opaque argument types>>
PConstType(P, ty, opq, i, dummy) ==
  IF i = 0 THEN <<TRUE, ty, opq>>
  ELSE LET p == P.vars[i]
           pt == P.S.tab[p[2]].ty
           inTy == p[2] \in ParamsOf(ty)
           q == IF inTy THEN Mk("QUOTE", <<p>>) ELSE pt
       IN IF inTy /\ NG(pt) THEN <<FALSE>>
          ELSE IF p[2] \in P.opq THEN PConstType(P, ty, <<q>> \o opq, i-1, dummy)
          ELSE IF opq # <<>> THEN <<FALSE>>
          ELSE PConstType(P, Mk("FUN", <<q, ty>>), opq, i-1, dummy)

DeclarePConst(S, as) ==
  \* (declare-parameterized-const name (params) type attrs)
  IF Len(as) < 4 THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) THEN Bad(S)
  ELSE LET P == ParamList(S, as[3], "CONST")
       IN IF ~P.ok THEN Bad(S)
          ELSE LET ret == ElabType(P.S, as[4], FALSE, TRUE)
                   at == IF IsErr(ret) THEN <<FALSE>> ELSE ConstAttrs(P.S, as, 5, <<>>)
               IN IF ~at[1] THEN Bad(S)
                  ELSE LET r == PConstType(P, ret, <<>>, Len(P.vars), 0)
                       IN IF ~r[1] THEN Bad(S)
                          ELSE LET fa == FirstAttr(at[2])
                                   ft == FlatFun(r[2])
                                   bound == UNION {ParamsOf(t) : t \in Range(ft[1]) \cup Range(r[3])}
                                   amb == (ParamsOf(ft[2]) \ {SelfId}) \ bound # {}
                                   opq == r[3] # <<>>
                               IN IF (amb /\ (fa[1] # "NONE" \/ opq)) \/ (opq /\ fa[1] # "NONE") THEN Bad(S)
                                  ELSE LET d == IF amb THEN Disamb(P.S, ft[2], r[2], as[2][2])
                                                ELSE <<P.S, FunType(r[3], r[2])>>
                                           x == NewSym(d[1], "CONST", as[2][2], d[2])
                                           a2 == IF amb THEN <<"AMB", NULL>>
                                                 ELSE IF opq THEN <<"OPAQUE", ZInt(Len(r[3]))>> ELSE fa
                                       IN Good(BindName(Leave(S, SetAttr(x[1], x[2], a2[1], a2[2])), as[2][2], x[2]))

DeclareFun(S, as) ==
  IF Len(as) # 4 THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) \/ ~IsL(as[3]) THEN Bad(S)
  ELSE LET ts == ElabTypes(S, as[3][2], 1, FALSE)
           ret == ElabType(S, as[4], FALSE, TRUE)
       IN IF AnyErr(ts) \/ IsErr(ret) THEN Bad(S)
          ELSE LET x == NewSym(S, "CONST", as[2][2], FunType(ts, ret))
               IN Good(BindName(x[1], as[2][2], x[2]))

SortType(n) == FunType(Tup([i \in 1..n |-> TYPE]), TYPE)
DeclareSort(S, as) ==
  IF Len(as) # 3 THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) \/ NumArg(as[3]) < 0 THEN Bad(S)
  ELSE LET x == NewSym(S, "CONST", as[2][2], SortType(NumArg(as[3])))
       IN Good(BindName(x[1], as[2][2], x[2]))

DeclareConsts(S, as) ==
  IF Len(as) # 3 THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) THEN Bad(S)
  ELSE LET k == KindTag(as[2][2])
           ty == ElabType(BindName(S, "eo::self", SELF), as[3], FALSE, TRUE)
       IN IF k = "none" \/ IsErr(ty) THEN Bad(S)
          ELSE IF k # "TF" /\ S.lit[k] # NULL /\ S.lit[k] # ty THEN Bad(S)
          ELSE IF k = "TF" /\ ty # BOOLT THEN Bad(S)
          ELSE Good([S EXCEPT !.lit[k] = ty])

\* ---------------------------------------------------------------------------
\* Datatypes.  Selectors of one constructor: <<ok, S, bindings, types, selectors>>
RECURSIVE Sels(_,_,_,_), Conss(_,_,_,_,_,_), DtBodies(_,_,_,_,_)
Sels(r, dt, as, i) ==
  IF i > Len(as) THEN r
  ELSE LET S == r[2]
       IN IF ~IsL(as[i]) THEN <<FALSE>>
          ELSE IF Len(as[i][2]) # 2 THEN <<FALSE>>
          ELSE IF ~IsSymA(S, as[i][2][1]) THEN <<FALSE>>
          ELSE LET n == as[i][2][1][2]
                   ty == ElabType(S, as[i][2][2], FALSE, TRUE)
               IN IF IsErr(ty) THEN <<FALSE>>
                  ELSE LET s == NewSym(S, "CONST", n, FunType(<<dt>>, ty))
                           u == NewSym(s[1], "CONST", "update-" \o n, FunType(<<dt, ty>>, dt))
                       IN Sels(<<TRUE, u[1], r[3] \o <<<<n, s[2]>>, <<"update-" \o n, u[2]>>>>,
                                 Append(r[4], ty), Append(r[5], s[2])>>, dt, as, i+1)
\* constructors: <<ok, S, bindings, constructors>>
Conss(r, dt, dtps, as, i, dummy) ==
  IF i > Len(as) THEN r
  ELSE IF ~IsL(as[i]) THEN <<FALSE>>
  ELSE IF as[i][2] = <<>> THEN <<FALSE>>
  ELSE IF ~IsSymA(r[2], as[i][2][1]) THEN <<FALSE>>
  ELSE LET n == as[i][2][1][2]
           s == Sels(<<TRUE, r[2], r[3], <<>>, <<>>>>, dt, Tail(as[i][2]), 1)
       IN IF ~s[1] THEN <<FALSE>>
          ELSE LET full == FunType(s[4], dt)
                   amb == ParamsOf(dt) \ UNION {ParamsOf(t) : t \in Range(s[4])} # {}
                   d == IF amb THEN Disamb(s[2], dt, full, n) ELSE <<s[2], full>>
                   c == NewSym(d[1], "CONST", n, d[2])
                   S2 == SetAttr(c[1], c[2], IF amb THEN "AMB_DTC" ELSE "DTC",
                                 MkListOf(ListCons, s[5], ListNil, FALSE))
                   t == NewSym(S2, "CONST", "is-" \o n, FunType(<<dt>>, BOOLT))
               IN Conss(<<TRUE, t[1], s[3] \o <<<<n, c[2]>>, <<"is-" \o n, t[2]>>>>, Append(r[4], c[2])>>,
                        dt, dtps, as, i+1, dummy)
RECURSIVE ParScope(_,_,_)
ParScope(r, ns, i) ==
  IF i > Len(ns) THEN r
  ELSE IF ~IsSymA(r[2], ns[i]) THEN <<FALSE>>
  ELSE LET x == NewSym(r[2], "PARAM", ns[i][2], TYPE)
       IN ParScope(<<TRUE, BindName(x[1], ns[i][2], x[2]), Append(r[3], x[2])>>, ns, i+1)
\* bodies of the datatypes; dts[i] = <<name, arity (-1: not given), constant or NULL>>
DtBodies(S, dts, as, i, dummy) ==
  IF i > Len(as) THEN <<i > Len(dts), S>>
  ELSE IF i > Len(dts) \/ ~IsL(as[i]) THEN <<FALSE, S>>
  ELSE LET par == as[i][2] # <<>> /\ IsWord(as[i][2][1], "par")
           p == IF ~par THEN <<TRUE, S, <<>>>>
                ELSE IF Len(as[i][2]) # 3 THEN <<FALSE>>
                ELSE IF ~IsL(as[i][2][2]) \/ as[i][2][2][2] = <<>> \/ ~IsL(as[i][2][3]) THEN <<FALSE>>
                ELSE ParScope(<<TRUE, S, <<>>>>, as[i][2][2][2], 1)
       IN IF ~p[1] THEN <<FALSE, S>>
          ELSE IF dts[i][2] >= 0 /\ Len(p[3]) # dts[i][2] THEN <<FALSE, S>>
          ELSE LET single == dts[i][2] < 0
                   c == IF single THEN NewSym(p[2], "CONST", dts[i][1], SortType(Len(p[3]))) ELSE <<p[2], dts[i][3]>>
                   \* a single datatype is bound here, below the parameters
                   S1 == IF single THEN BindName(c[1], dts[i][1], c[2]) ELSE c[1]
                   S0 == IF single THEN BindName([c[1] EXCEPT !.sym = S.sym, !.ov = S.ov], dts[i][1], c[2]) ELSE S
                   dt == IF p[3] = <<>> THEN c[2] ELSE MkApp(S1, <<c[2]>> \o p[3])
                   b == Conss(<<TRUE, S1, <<>>, <<>>>>, dt, p[3], (IF par THEN as[i][2][3] ELSE as[i])[2], 1, 0)
               IN IF ~b[1] THEN <<FALSE, S>>
                  ELSE LET S2 == SetAttr(b[2], c[2], "DT", MkListOf(ListCons, b[4], ListNil, FALSE))
                       IN DtBodies(BindAll([S2 EXCEPT !.sym = S0.sym, !.ov = S0.ov], b[3], 1), dts, as, i+1, 0)
RECURSIVE DtHeads(_,_,_)
DtHeads(r, as, i) ==   \* <<ok, S, dts>>
  IF i > Len(as) THEN r
  ELSE IF ~IsL(as[i]) THEN <<FALSE>>
  ELSE IF Len(as[i][2]) # 2 THEN <<FALSE>>
  ELSE IF ~IsSymA(r[2], as[i][2][1]) \/ NumArg(as[i][2][2]) < 0 THEN <<FALSE>>
  ELSE LET n == as[i][2][1][2]
           k == NumArg(as[i][2][2])
           x == NewSym(r[2], "CONST", n, SortType(k))
       IN DtHeads(<<TRUE, BindName(x[1], n, x[2]), Append(r[3], <<n, k, x[2]>>)>>, as, i+1)
DeclareDatatype(S, as) ==
  IF Len(as) # 3 THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) THEN Bad(S)
  ELSE LET r == DtBodies(S, <<<<as[2][2], -1, NULL>>>>, <<as[3]>>, 1, 0)
       IN IF r[1] THEN Good(r[2]) ELSE Bad(S)
DeclareDatatypes(S, as) ==
  IF Len(as) # 3 THEN Bad(S)
  ELSE IF ~IsL(as[2]) \/ ~IsL(as[3]) THEN Bad(S)
  ELSE LET h == DtHeads(<<TRUE, S, <<>>>>, as[2][2], 1)
       IN IF ~h[1] \/ as[2][2] = <<>> THEN Bad(S)
          ELSE LET r == DtBodies(h[2], h[3], as[3][2], 1, 0)
               IN IF r[1] THEN Good(r[2]) ELSE Bad(S)

\* ---------------------------------------------------------------------------
\* Rules.  A rule is a program from its arguments, the stated conclusion (if explicit),
\* the assumption (if any) and the proofs of its premises to its conclusion.
RECURSIVE Requires(_,_,_,_)
Requires(S, rs, i, conc) ==
  IF i = 0 THEN conc ELSE Requires(S, rs, i-1, MkLit(S, "eo::requires", <<rs[i][1], rs[i][2], conc>>))
RuleName(S, n) == IF S.opt.rst THEN (IF n \in DOMAIN S.rules THEN S.rules[n] ELSE NULL) ELSE Look(S, n)
DeclareRule(S, as) ==
  IF Level(S) > 0 \/ Len(as) < 3 THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) THEN Bad(S)
  ELSE
  LET n == as[2][2]
      P == ParamList(S, as[3], "RULE")
  IN IF ~P.ok THEN Bad(S)
     ELSE LET
       B == P.S
       hasA == KeyAt(as, 4, ":assumption") /\ Len(as) >= 5
       asm == IF hasA THEN Elab(B, as[5]) ELSE NULL
       i1 == IF hasA THEN 6 ELSE 4
       hasP == KeyAt(as, i1, ":premises") /\ IsL(Item(as, i1+1))
       hasPL == KeyAt(as, i1, ":premise-list") /\ Len(as) >= i1+2
       pl == IF hasPL THEN Elab(B, as[i1+2]) ELSE NULL
       prems == IF hasP THEN ElabItems(B, as[i1+1][2], 1)
                ELSE IF hasPL THEN <<Elab(B, as[i1+1])>> ELSE <<>>
       i2 == IF hasP THEN i1+2 ELSE IF hasPL THEN i1+3 ELSE i1
       hasR == KeyAt(as, i2, ":args") /\ IsL(Item(as, i2+1))
       args == IF hasR THEN ElabItems(B, as[i2+1][2], 1) ELSE <<>>
       i3 == IF hasR THEN i2+2 ELSE i2
       hasQ == KeyAt(as, i3, ":requires") /\ IsL(Item(as, i3+1))
       reqs == IF hasQ THEN ElabPairs(B, as[i3+1][2], 1, <<>>) ELSE <<TRUE, <<>>>>
       i4 == IF hasQ THEN i3+2 ELSE i3
       ex == KeyAt(as, i4, ":conclusion-explicit")
       hasC == (ex \/ KeyAt(as, i4, ":conclusion")) /\ Len(as) > i4
       conc == IF hasC THEN Elab(B, as[i4+1]) ELSE ERR("no conclusion")
     IN IF ~hasC \/ IsErr(conc) \/ ~reqs[1] \/ AnyErr(args) \/ AnyErr(prems)
           \/ (hasA /\ IsErr(asm)) \/ (hasPL /\ IsErr(pl)) THEN Bad(S)
        ELSE LET
          pargs == args \o (IF ex THEN <<conc>> ELSE <<>>) \o (IF hasA THEN <<asm>> ELSE <<>>)
                     \o Tup([i \in DOMAIN prems |-> Mk("PF", <<prems[i]>>)])
          ret == Requires(B, reqs[2], Len(reqs[2]), conc)
          x == NewSym(Leave(S, B), "RULE", n, BOOLT)
          patPs == UNION {ParamsOf(pargs[i]) : i \in DOMAIN pargs}
          wellFormed == IF pargs = <<>> THEN ~NG(ret) /\ ~EV(ret)
                        ELSE /\ ParamsOf(ret) \subseteq patPs \cup {SelfId}
                             /\ \A i \in DOMAIN pargs : ~EV(pargs[i])
          y == NewSym(x[1], "PROG", n, BOOLT)
          S3 == IF pargs = <<>> THEN x[1]
                ELSE [y[1] EXCEPT !.tab[y[2][2]].at = "PROGRAM",
                                  !.tab[y[2][2]].pr = <<<<<<y[2]>> \o pargs, ret>>>>]
          \* attributes after the conclusion
          RECURSIVE RA(_,_)
          RA(i, sorry) == IF i > Len(as) THEN <<TRUE, sorry>>
                          ELSE IF ~IsK(as[i]) THEN <<FALSE>>
                          ELSE IF as[i][2] = ":sorry" THEN RA(i+1, TRUE)
                          ELSE IF as[i][2] \in KnownAttrs THEN <<FALSE>>
                          ELSE RA(IF i < Len(as) /\ ~IsK(as[i+1]) THEN i+2 ELSE i+1, sorry)
          ra == RA(i4+2, FALSE)
          info == [pl |-> pl, asm |-> hasA, ex |-> ex, nargs |-> Len(pargs),
                   prog |-> IF pargs = <<>> THEN ret ELSE y[2], sorry |-> ra[1] /\ ra[2]]
          S4 == [S3 EXCEPT !.ri = (x[2][2] :> info) @@ @]
        IN IF ~wellFormed \/ ~ra[1] THEN Bad(S)
           ELSE IF ~S.opt.rst THEN Good(BindName(S4, n, x[2]))
           ELSE IF S.scopes # <<>> \/ n \in DOMAIN S.rules THEN Bad(S)
           ELSE Good([S4 EXCEPT !.rules = (n :> x[2]) @@ @])

\* ---------------------------------------------------------------------------
\* The formula proved by a rule application, or ERR
PremiseList(S, pl, prems) ==
  IF \E i \in DOMAIN prems : prems[i][1] # "PF" THEN ERR("premise is not a proof")
  ELSE IF prems = <<>> THEN
    (IF AttrOf(S, pl) \in AssocNil THEN Mk("PF", <<ConsOf(S, pl)>>) ELSE ERR("no nil terminator"))
  ELSE Mk("PF", <<MkApp(S, <<pl>> \o Tup([i \in DOMAIN prems |-> prems[i][2][1]]))>>)
Conclude(S, rule, stated, prems, args, isPop) ==
  LET r == S.ri[rule[2]]
      ai == CHOOSE i \in DOMAIN S.scopes : S.scopes[i].asm /\ \A j \in DOMAIN S.scopes : S.scopes[j].asm => j <= i
  IN IF r.ex /\ stated = NULL THEN ERR("stated conclusion required")
     ELSE IF isPop # r.asm THEN ERR("step / step-pop")
     ELSE LET ps == IF r.pl = NULL THEN prems ELSE <<PremiseList(S, r.pl, prems)>>
              all == args \o (IF r.ex THEN <<stated>> ELSE <<>>)
                       \o (IF isPop THEN <<S.asms[S.scopes[ai].nas + 1]>> ELSE <<>>) \o ps
          IN IF AnyErr(ps) THEN FirstErr(ps)
             ELSE IF all = <<>> THEN (IF r.nargs > 0 THEN ERR("the rule takes arguments") ELSE r.prog)
             ELSE IF r.nargs = 0 THEN ERR("the rule takes no arguments")
             ELSE LET m == RunProg(S, <<r.prog>> \o all, 1)
                      c == IF m[1] THEN Eval(S, m[2], m[3]) ELSE NULL
                  IN IF c = NULL THEN ERR("the rule does not apply")
                     ELSE IF EV(c) THEN ERR("side condition or conclusion does not evaluate")
                     ELSE c
Bump(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE f @@ (x :> 1)
Step(S, as) ==
  LET isPop == as[1][2] = "step-pop"
      hasF == Len(as) >= 3 /\ ~IsK(as[3])
      i1 == IF hasF THEN 4 ELSE 3
  IN IF Len(as) < i1+1 \/ (isPop /\ Level(S) = 0) THEN Bad(S)
     ELSE IF ~IsSymA(S, as[2]) \/ ~KeyAt(as, i1, ":rule") \/ ~IsSymA(S, as[i1+1]) THEN Bad(S)
     ELSE LET
       stated == IF hasF THEN ElabFormula(S, as[3]) ELSE NULL
       rule == RuleName(S, as[i1+1][2])
       i2 == i1+2
       hasP == KeyAt(as, i2, ":premises")
       prems == IF ~hasP THEN <<>> ELSE IF ~IsL(Item(as, i2+1)) THEN <<ERR("premises")>> ELSE ElabItems(S, as[i2+1][2], 1)
       i3 == IF hasP THEN i2+2 ELSE i2
       hasA == KeyAt(as, i3, ":args")
       args == IF ~hasA THEN <<>> ELSE IF ~IsL(Item(as, i3+1)) THEN <<ERR("args")>> ELSE ElabItems(S, as[i3+1][2], 1)
       i4 == IF hasA THEN i3+2 ELSE i3
       \* a keyword that is none of these is read and ignored
       i5 == IF i4 = i3 /\ IsK(Item(as, i4)) THEN i4+1 ELSE i4
     IN IF (hasF /\ IsErr(stated)) \/ rule = NULL THEN Bad(S)
        ELSE IF rule[1] # "RULE" \/ AnyErr(prems) \/ AnyErr(args) \/ i5 <= Len(as) THEN Bad(S)
        ELSE LET c == Conclude(S, rule, stated, prems, args, isPop)
             IN IF IsErr(c) THEN Bad(S)
                ELSE IF TypeOf(S, c) # BOOLT \/ (hasF /\ c # stated) THEN Bad(S)
                ELSE LET ai == CHOOSE i \in DOMAIN S.scopes : S.scopes[i].asm
                                  /\ \A j \in DOMAIN S.scopes : S.scopes[j].asm => j <= i
                         S2 == IF isPop
                               THEN [PopN(S, Len(S.scopes) - ai + 1) EXCEPT
                                       !.asms = SubSeq(@, 1, S.scopes[ai].nas)]
                               ELSE S
                     IN Good([BindName(S2, as[2][2], Mk("PF", <<c>>))
                                EXCEPT !.sorry = @ \/ S.ri[rule[2]].sorry,
                                       !.cnt = IF S.opt.count THEN Bump(@, rule[2]) ELSE @])

RefNf(S, t) == IF S.nf = NULL THEN t ELSE MkApp(S, <<S.nf, t>>)
Assume(S, as) ==
  LET push == as[1][2] = "assume-push"
  IN IF Len(as) # 3 THEN Bad(S)
     ELSE IF ~IsSymA(S, as[2]) THEN Bad(S)
     ELSE LET f == ElabFormula(S, as[3])
          IN IF IsErr(f) THEN Bad(S)
             ELSE LET S1 == BindName(IF push THEN Push(S, TRUE) ELSE S, as[2][2], Mk("PF", <<f>>))
                  IN IF ~push /\ S.hasref /\ RefNf(S1, f) \notin S.refs THEN Bad(S)
                     ELSE Good([S1 EXCEPT !.asms = Append(@, f)])

\* ---------------------------------------------------------------------------
ProgramCmd(S, as) ==
  \* (program name (params) :signature (types) type (cases)?)
  IF Len(as) \notin {6, 7} THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) \/ ~KeyAt(as, 4, ":signature") \/ ~IsL(as[5]) THEN Bad(S)
  ELSE LET n == as[2][2]
           P == ParamList(S, as[3], "PROG")
       IN IF ~P.ok THEN Bad(S)
          ELSE LET tys == ElabTypes(P.S, as[5][2], 1, TRUE)
                   ret == ElabType(P.S, as[6], FALSE, TRUE)
               IN IF AnyErr(tys) \/ IsErr(ret) \/ tys = <<>> THEN Bad(S)
                  ELSE LET pty == Mk("PTY", Append(tys, ret))
                           prev == Look(P.S, n)
                           x == IF prev = NULL THEN NewSym(P.S, "PROG", n, pty) ELSE <<P.S, prev>>
                           pv == x[2]
                           okPrev == prev = NULL \/ (/\ prev[1] = "PROG" /\ S.tab[prev[2]].pr = <<>>
                                                     /\ S.tab[prev[2]].ty = pty)
                           S1 == IF prev = NULL THEN BindName(x[1], n, pv) ELSE x[1]
                           hasCases == Len(as) = 7
                           cs == IF ~hasCases THEN <<TRUE, <<>>>>
                                 ELSE IF ~IsL(as[7]) THEN <<FALSE>>
                                 ELSE ElabPairs(S1, as[7][2], 1, <<>>)
                       IN IF ~okPrev \/ ~cs[1] THEN Bad(S)
                          ELSE LET okCase(c) ==
                                     /\ c[1][1] = "APPLY" /\ c[1][2][1] = pv /\ Len(c[1][2]) = Len(tys)+1
                                     /\ ParamsOf(c[2]) \ {SelfId} \subseteq ParamsOf(c[1])
                                     /\ \A i \in 2..Len(c[1][2]) : ~EV(c[1][2][i])
                                   S2 == Leave(S, S1)
                                   S3 == IF hasCases
                                         THEN [S2 EXCEPT !.tab[pv[2]].at = "PROGRAM",
                                                 !.tab[pv[2]].pr = Tup([i \in DOMAIN cs[2] |-> <<cs[2][i][1][2], cs[2][i][2]>>])]
                                         ELSE S2
                               IN IF hasCases /\ (cs[2] = <<>> \/ \E i \in DOMAIN cs[2] : ~okCase(cs[2][i])) THEN Bad(S)
                                  ELSE Good(IF prev = NULL THEN BindName(S3, n, pv) ELSE S3)

RECURSIVE BindPs(_,_,_)
BindPs(S, vs, i) == IF i > Len(vs) THEN S ELSE BindPs(BindName(S, S.tab[vs[i][2]].nm, vs[i]), vs, i+1)
Lam(vs, t) == IF vs = <<>> THEN t ELSE Mk("LAM", <<Mk("TUPLE", vs), t>>)
Define(S, as) ==
  IF Len(as) < 4 THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) THEN Bad(S)
  ELSE LET P == ParamList(S, as[3], "DEF")
       IN IF ~P.ok THEN Bad(S)
          ELSE LET B == IF P.impl > 0 THEN BindPs(Leave(S, P.S), P.vars, 1) ELSE P.S
                   t == Elab(B, as[4])
               IN IF IsErr(t) THEN Bad(S)
                  ELSE LET e == Lam(P.vars, t)
                           RECURSIVE DA(_)
                           DA(i) == IF i > Len(as) THEN TRUE
                                    ELSE IF ~IsK(as[i]) THEN FALSE
                                    ELSE IF as[i][2] = ":type" THEN
                                      (IF i = Len(as) THEN FALSE
                                       ELSE LET ty == Elab(B, as[i+1])
                                            IN IF IsErr(ty) THEN FALSE
                                               ELSE IF TypeOf(B, e) # ty THEN FALSE ELSE DA(i+2))
                                    ELSE IF as[i][2] \in KnownAttrs THEN FALSE
                                    ELSE DA(IF i < Len(as) /\ ~IsK(as[i+1]) THEN i+2 ELSE i+1)
                       IN IF ~DA(5) THEN Bad(S) ELSE Good(BindName(Leave(S, B), as[2][2], e))
DefineConst(S, as) ==
  IF Len(as) # 4 THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) THEN Bad(S)
  ELSE LET ty == ElabType(S, as[3], FALSE, TRUE)
           t == Elab(S, as[4])
       IN IF IsErr(ty) \/ IsErr(t) THEN Bad(S)
          ELSE IF TypeOf(S, t) # ty THEN Bad(S) ELSE Good(BindName(S, as[2][2], t))
DefineSort(S, as) ==
  IF Len(as) # 4 THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) \/ ~IsL(as[3]) THEN Bad(S)
  ELSE LET p == ParScope(<<TRUE, S, <<>>>>, as[3][2], 1)
       IN IF ~p[1] THEN Bad(S)
          ELSE LET t == ElabType(p[2], as[4], FALSE, TRUE)
               IN IF IsErr(t) THEN Bad(S) ELSE Good(BindName(Leave(S, p[2]), as[2][2], Lam(p[3], t)))
DefineFun(S, as) ==
  IF Len(as) # 5 THEN Bad(S)
  ELSE IF ~IsSymA(S, as[2]) THEN Bad(S)
  ELSE LET P == ParamList(S, as[3], "DEF")
       IN IF ~P.ok THEN Bad(S)
          ELSE LET B == IF P.impl > 0 THEN BindPs(Leave(S, P.S), P.vars, 1) ELSE P.S
                   ret == ElabType(B, as[4], FALSE, TRUE)
                   t == Elab(B, as[5])
                   eq == Look(B, "=")
                   lam == Look(B, "lambda")
               IN IF IsErr(ret) \/ IsErr(t) \/ eq = NULL THEN Bad(S)
                  ELSE IF TypeOf(B, t) # ret THEN Bad(S)
                  ELSE IF P.vars # <<>> /\ (lam = NULL \/ AttrOf(B, lam) # "BINDER") THEN Bad(S)
                  ELSE LET rhs == IF P.vars = <<>> THEN t
                                  ELSE MkApp(B, <<lam, MkApp(B, <<ConsOf(B, lam)>> \o P.vars), t>>)
                           ty == FunType(Tup([i \in DOMAIN P.vars |-> B.tab[P.vars[i][2]].ty]), ret)
                           x == NewSym(B, "CONST", as[2][2], ty)
                           a == MkApp(x[1], <<eq, x[2], rhs>>)
                       IN Good([BindName(Leave(S, x[1]), as[2][2], x[2]) EXCEPT !.refs = @ \cup {RefNf(x[1], a)}])

Assert_(S, as) ==
  IF Len(as) # 2 THEN Bad(S)
  ELSE LET f == ElabFormula(S, as[2])
       IN IF IsErr(f) THEN Bad(S) ELSE Good([S EXCEPT !.refs = @ \cup {RefNf(S, f)}])

\* ---------------------------------------------------------------------------
PushPop(S, as) ==
  LET isPush == as[1][2] = "push"
      n == IF Len(as) = 1 THEN 1 ELSE NumArg(as[2])
      RECURSIVE F(_,_)
      F(T, k) == IF k = 0 THEN Good(T)
                 ELSE IF isPush THEN F(Push(T, FALSE), k-1)
                 ELSE IF T.scopes = <<>> THEN Bad(S)
                 ELSE IF Last(T.scopes).asm THEN Bad(S)
                 ELSE F(PopN(T, 1), k-1)
  IN IF Len(as) > 2 \/ n < 0 THEN Bad(S) ELSE F(S, n)
Reset(S, as) ==
  IF Len(as) # 1 THEN Bad(S)
  ELSE Good([S EXCEPT !.sym = BuiltinSym, !.ov = <<>>, !.scopes = <<>>, !.asms = <<>>,
                      !.rules = <<>>, !.lit = [NoLit EXCEPT !["TF"] = BOOLT]])
\* The options.  num, dec, hex, rst and let change the language; stats, stall, stcompact (the
\* statistics printed after the answer) and dag (sharing in printed terms) do not.
OptName(k) == CASE k = "normalize-num" -> "num" [] k = "normalize-dec" -> "dec" [] k = "normalize-hex" -> "hex"
                [] k = "rule-sym-table" -> "rst" [] k = "parse-let" -> "let" [] k = "print-dag" -> "dag"
                [] k = "stats" -> "stats" [] k = "stats-all" -> "stall" [] k = "stats-compact" -> "stcompact"
                [] OTHER -> "none"
\* each kind of statistics implies statistics; turning it off does not turn them off
SetOpt(o, k, b) ==
  LET n == OptName(k)
  IN CASE n = "none" -> o
       [] n \in {"stall", "stcompact"} /\ b -> [o EXCEPT ![n] = TRUE, !.stats = TRUE]
       [] OTHER -> [o EXCEPT ![n] = b]
RECURSIVE SetOpts(_,_,_)
OptKeys == {"normalize-num","normalize-dec","normalize-hex","rule-sym-table","parse-let","print-dag",
            "stats","stats-all","stats-compact"}
SetOpts(o, fl, i) == IF i > Len(fl) THEN o ELSE SetOpts(SetOpt(o, fl[i][1], fl[i][2]), fl, i+1)
SetOption(S, as) ==
  IF Len(as) # 3 THEN Bad(S)
  ELSE IF ~IsK(as[2]) THEN Bad(S)
  ELSE IF S.cls = "ref" \/ as[3][1] # "s" THEN Good(S)
  ELSE IF as[3][2] \notin {"true","false"} THEN Good(S)
  ELSE LET ks == {o \in OptKeys : ":" \o o = as[2][2]}
       IN IF ks = {} THEN Good(S)
          ELSE Good([S EXCEPT !.opt = SetOpt(@, CHOOSE o \in ks : TRUE, as[3][2] = "true")])

\* ---------------------------------------------------------------------------
\* Files
FileAt(S, p) == LET F == FilesOf(S.job)
                    fs == {i \in DOMAIN F : F[i].path = p} IN IF fs = {} THEN 0 ELSE CHOOSE i \in fs : TRUE
RECURSIVE Walk(_,_,_,_)
\* the path reached from directory d by the names cs, or <<"?">>
Walk(S, d, cs, i) ==
  IF i > Len(cs) THEN d
  ELSE IF d \notin DirsOf(S.job) THEN <<"?">>
  ELSE IF cs[i] \in {"", "."} THEN Walk(S, d, cs, i+1)
  ELSE IF cs[i] = ".." THEN Walk(S, IF d = <<>> THEN d ELSE Front(d), cs, i+1)
  ELSE Walk(S, Append(d, cs[i]), cs, i+1)
Resolve(S, cs) ==   \* index of the file, 0 if there is none
  LET abs == cs # <<>> /\ cs[1] = "/"
      p == Walk(S, IF abs THEN <<>> ELSE S.dir, IF abs THEN Tail(cs) ELSE cs, 1)
      IN FileAt(S, p)
RealFile(S, i) == LET f == FilesOf(S.job)[i] IN IF f.link = <<>> THEN i ELSE FileAt(S, f.link)

RECURSIVE Exec(_,_), RunCmds(_,_,_,_), Include(_,_,_,_,_)
RunCmds(S, cmds, i, fi) ==
  IF i > Len(cmds) THEN Good(S)
  ELSE LET r == Exec(S, cmds[i])
       IN IF ~r.ok THEN [ok |-> FALSE, S |-> r.S, ctl |-> "next", at |-> <<<<fi, i>>>> \o r.at]
          ELSE IF r.ctl = "exit" THEN Good(r.S)
          ELSE RunCmds(r.S, cmds, i+1, fi)
\* read file number fi with class cls
Include(S, fi, cls, nf, dummy) ==
  LET rf == RealFile(S, fi)
  IN IF cls = "ref" /\ S.hasref THEN Bad(S)
     ELSE IF rf \in S.inc THEN (IF cls = "ref" THEN Bad(S) ELSE Good(S))
     ELSE LET S1 == [S EXCEPT !.inc = @ \cup {rf}, !.cls = cls, !.let = (cls # "sig" /\ S.opt.let),
                              !.dir = Front(FilesOf(S.job)[fi].path),
                              !.hasref = @ \/ cls = "ref", !.nf = IF cls = "ref" THEN nf ELSE @]
              r == RunCmds(S1, FilesOf(S.job)[rf].cmds, 1, fi)
          IN IF ~r.ok THEN [r EXCEPT !.S = S]
             ELSE IF Level(r.S) > 0 THEN [Bad(S) EXCEPT !.at = <<<<fi, 0>>>>]
             ELSE Good([r.S EXCEPT !.cls = S.cls, !.let = S.let, !.dir = S.dir])
IncludeCmd(S, as) ==
  LET ref == as[1][2] = "reference"
  IN IF Level(S) > 0 \/ Len(as) < 2 \/ Len(as) > (IF ref THEN 3 ELSE 2) THEN Bad(S)
     ELSE IF ~IsStrA(as[2]) THEN Bad(S)
     ELSE LET nf == IF Len(as) = 3 THEN Elab(S, as[3]) ELSE NULL
              fi == Resolve(S, as[2][3])
          IN IF (Len(as) = 3 /\ IsErr(nf)) \/ fi = 0 THEN Bad(S)
             ELSE Include(S, fi, IF ref THEN "ref" ELSE "sig", nf, 0)

Common == {"declare-const","declare-datatype","declare-datatypes","declare-sort","echo","exit",
           "set-option","pop","push","reset"}
RefOnly == {"assert","declare-fun","define-const","define-fun","define-sort","check-sat",
            "check-sat-assuming","set-logic","set-info"}
NonRef == {"assume","assume-push","declare-consts","declare-parameterized-const","declare-rule",
           "define","include","program","reference","step","step-pop"}
\* a command given by its characters
CmdOf(cmd) == IF cmd[1] # "txt" THEN cmd
              ELSE LET r == Read(cmd[2]) IN IF r[1] = "ok" /\ Len(r[2]) = 1 THEN r[2][1] ELSE <<"bad">>
Exec(S, cmd) == IF cmd[1] = "txt" THEN Exec(S, CmdOf(cmd)) ELSE
  IF ~IsL(cmd) THEN Bad(S)
  ELSE IF cmd[2] = <<>> THEN Bad(S)
  ELSE IF cmd[2][1][1] # "s" THEN Bad(S)
  ELSE LET as == cmd[2]
           c == as[1][2]
       IN IF c \notin Common \cup (IF S.cls = "ref" THEN RefOnly ELSE NonRef) THEN Bad(S)
          ELSE CASE c = "declare-const" -> DeclareConst(S, as)
                 [] c = "declare-parameterized-const" -> DeclarePConst(S, as)
                 [] c = "declare-fun" -> DeclareFun(S, as)
                 [] c = "declare-sort" -> DeclareSort(S, as)
                 [] c = "declare-consts" -> DeclareConsts(S, as)
                 [] c = "declare-datatype" -> DeclareDatatype(S, as)
                 [] c = "declare-datatypes" -> DeclareDatatypes(S, as)
                 [] c = "declare-rule" -> DeclareRule(S, as)
                 [] c \in {"step","step-pop"} -> Step(S, as)
                 [] c \in {"assume","assume-push"} -> Assume(S, as)
                 [] c = "program" -> ProgramCmd(S, as)
                 [] c = "define" -> Define(S, as)
                 [] c = "define-const" -> DefineConst(S, as)
                 [] c = "define-fun" -> DefineFun(S, as)
                 [] c = "define-sort" -> DefineSort(S, as)
                 [] c = "assert" -> Assert_(S, as)
                 [] c \in {"push","pop"} -> PushPop(S, as)
                 [] c = "reset" -> Reset(S, as)
                 [] c = "set-option" -> SetOption(S, as)
                 [] c \in {"include","reference"} -> IncludeCmd(S, as)
                 [] c = "exit" -> IF Len(as) = 1 THEN [Good(S) EXCEPT !.ctl = "exit"] ELSE Bad(S)
                 [] c = "echo" ->
                      IF Len(as) = 1 THEN Good([S EXCEPT !.out = Append(@, <<>>)])
                      ELSE IF Len(as) = 2 /\ IsStrA(as[2]) THEN Good([S EXCEPT !.out = Append(@, IF Len(as[2]) = 4 THEN as[2][4] ELSE as[2][2])])
                      ELSE Bad(S)
                 [] c = "check-sat" -> IF Len(as) = 1 THEN Good(S) ELSE Bad(S)
                 [] c = "check-sat-assuming" ->
                      IF Len(as) # 2 THEN Bad(S)
                      ELSE IF ~IsL(as[2]) THEN Bad(S)
                      ELSE IF AnyErr(ElabItems(S, as[2][2], 1)) THEN Bad(S) ELSE Good(S)
                 [] c = "set-logic" -> IF Len(as) = 2 /\ IsSymA(S, as[2]) THEN Good(S) ELSE Bad(S)
                 [] c = "set-info" -> IF Len(as) = 3 /\ IsK(as[2]) THEN Good(S) ELSE Bad(S)

\* the answer of a run that ends without a rejected command
Answer(S) == IF S.sorry THEN "incomplete" ELSE "correct"
=============================================================================
