-------------------------------- MODULE EoSem --------------------------------
(***************************************************************************)
(* Meaning of terms in a checker state S: types, matching, evaluation of   *)
(* programs and operators, and how applications are built (desugaring by   *)
(* attribute, overloads, beta-reduction).  Everything is a function of S   *)
(* and the term; in particular there is no cache whose contents could make *)
(* the meaning depend on what was asked before.                            *)
(*                                                                         *)
(* S.tab[id]  symbols: [nm name, ty type, at attribute, ac its term,       *)
(*            pr program cases or NULL]                                    *)
(* S.sym      name |-> sequence of bindings, the last is current           *)
(* S.ov       term |-> the names under which it was bound while they were  *)
(*            already bound (it may be overloaded), the latest last        *)
(* S.lit      literal category |-> declared type or NULL                   *)
(***************************************************************************)
EXTENDS EoLit, EoHash

CONSTANTS NameCodes(_),  \* name |-> its character codes
          Fuel(_)       \* called at every program call with the arguments; FALSE gives up
                        \* a run that does not end or builds terms that are too large

SelfId == 1
SELF == PARAM(SelfId)
ListTy == CONST(2)
ListNil == CONST(3)
ListTId == 4
ListCons == CONST(5)
ProofTy == CONST(6)

EmptyCtx == <<>>
Bind(ctx, id, t) == (id :> t) @@ ctx

HasInfo(S, t) == t[1] \in SymTags \/ t[1] = "BLT" \/ t \in DOMAIN S.ov
AttrOf(S, t) == IF t[1] \in SymTags THEN S.tab[t[2]].at ELSE "NONE"
ConsOf(S, t) == IF t[1] \in SymTags THEN S.tab[t[2]].ac ELSE NULL

AssocNil == {"RA_NIL","LA_NIL","RA_NS_NIL","LA_NS_NIL"}
AssocAttrs == {"RA","LA"} \cup AssocNil
NAryAttrs == AssocAttrs \cup {"CHAINABLE","PAIRWISE"}
LeftAttrs == {"LA","LA_NIL","LA_NS_NIL"}

\* ---------------------------------------------------------------------------
\* Matching of pattern a against b under ctx: <<ok, ctx>>.  Children are matched
\* from the last to the first; a failing match leaves the bindings made so far.
RECURSIVE Match(_,_,_), MatchCh(_,_,_,_)
Match(a, b, ctx) ==
  IF ~NG(a) THEN <<a = b, ctx>>
  ELSE IF a[1] = "PARAM" THEN
    IF a[2] \in DOMAIN ctx THEN <<ctx[a[2]] = b, ctx>> ELSE <<TRUE, Bind(ctx, a[2], b)>>
  ELSE IF IsLeaf(a) \/ a[1] # b[1] THEN <<FALSE, ctx>>
  ELSE IF Len(a[2]) # Len(b[2]) THEN <<FALSE, ctx>>
  ELSE MatchCh(a[2], b[2], ctx, Len(a[2]))
MatchCh(as, bs, ctx, i) ==
  IF i = 0 THEN <<TRUE, ctx>>
  ELSE LET r == Match(as[i], bs[i], ctx)
       IN IF r[1] THEN MatchCh(as, bs, r[2], i-1) ELSE r

\* arguments of a program case are matched from the first to the last
RECURSIVE MatchArgs(_,_,_,_)
MatchArgs(as, bs, ctx, i) ==
  IF i > Len(as) THEN <<TRUE, ctx>>
  ELSE LET r == Match(as[i], bs[i], ctx)
       IN IF r[1] THEN MatchArgs(as, bs, r[2], i+1) ELSE r

\* ---------------------------------------------------------------------------
\* Lists: the elements of an op-list, in the order of the list
RECURSIVE Elems(_,_,_), ListEnd(_,_,_), Prepend(_,_,_,_)
IsOpApp(e, op) == e[1] = "APPLY" /\ e[2][1][1] = "APPLY" /\ Len(e[2]) = 2 /\ Len(e[2][1][2]) = 2 /\ e[2][1][2][1] = op
Elems(e, op, left) ==
  IF ~IsOpApp(e, op) THEN <<>>
  ELSE IF left THEN <<e[2][2]>> \o Elems(e[2][1][2][2], op, left)
  ELSE <<e[2][1][2][2]>> \o Elems(e[2][2], op, left)
ListEnd(e, op, left) ==
  IF ~IsOpApp(e, op) THEN e
  ELSE ListEnd(IF left THEN e[2][1][2][2] ELSE e[2][2], op, left)
\* put the elements xs[1..i] before tail
Prepend(op, xs, tail, left) ==
  IF xs = <<>> THEN tail
  ELSE LET x == Last(xs)
           a == IF left THEN tail ELSE x
           b == IF left THEN x ELSE tail
       IN Prepend(op, Front(xs), Mk("APPLY", <<Mk("APPLY", <<op, a>>), b>>), left)
MkListOf(op, xs, nil, left) == Prepend(op, xs, nil, left)

Count(xs, x) == Cardinality({i \in DOMAIN xs : xs[i] = x})
RECURSIVE FirstIndex(_,_,_)
FirstIndex(xs, x, i) == IF i > Len(xs) THEN -1 ELSE IF xs[i] = x THEN i-1 ELSE FirstIndex(xs, x, i+1)
SeqErase(xs, x) == LET i == FirstIndex(xs, x, 1)
                   IN IF i < 0 THEN xs ELSE SubSeq(xs, 1, i) \o SubSeq(xs, i+2, Len(xs))
SeqEraseAll(xs, x) == SelectSeq(xs, LAMBDA y : y # x)
RECURSIVE SeqSetOf(_,_)
SeqSetOf(xs, acc) == IF xs = <<>> THEN acc
                     ELSE SeqSetOf(Tail(xs), IF Head(xs) \in Range(acc) THEN acc ELSE Append(acc, Head(xs)))
\* the elements of xs in order, each cancelling one equal element of ys
RECURSIVE SeqDiff(_,_), SeqInter(_,_)
SeqDiff(xs, ys) == IF xs = <<>> THEN <<>>
                   ELSE IF Head(xs) \in Range(ys) THEN SeqDiff(Tail(xs), SeqErase(ys, Head(xs)))
                   ELSE <<Head(xs)>> \o SeqDiff(Tail(xs), ys)
SeqInter(xs, ys) == IF xs = <<>> THEN <<>>
                    ELSE IF Head(xs) \in Range(ys) THEN <<Head(xs)>> \o SeqInter(Tail(xs), SeqErase(ys, Head(xs)))
                    ELSE SeqInter(Tail(xs), ys)
MInclude(xs, ys) == \A x \in Range(xs) : Count(xs, x) <= Count(ys, x)
MEq(xs, ys) == MInclude(xs, ys) /\ MInclude(ys, xs)

\* ---------------------------------------------------------------------------
RECURSIVE Eval(_,_,_), EvalCh(_,_,_,_), RunProg(_,_,_), LitOp(_,_,_), 
          TypeOf(_,_), TypesOf(_,_,_), TypeApp(_,_,_,_,_), LitOpType(_,_,_,_),
          LitType(_,_,_), ConsTerm(_,_), ListOp(_,_,_),
          MkApp(_,_), MkLit(_,_,_), MkApplyAttr(_,_,_), Overload(_,_,_,_,_), MkAs(_,_)

\* Evaluation of t where the parameters in DOMAIN ctx stand for ctx
Eval(S, t, ctx) ==
  IF ~EV(t) /\ (~NG(t) \/ DOMAIN ctx = {}) THEN t
  ELSE IF t[1] = "PARAM" THEN IF t[2] \in DOMAIN ctx THEN ctx[t[2]] ELSE t
  ELSE IF IsLeaf(t) THEN t
  ELSE IF t[1] = "eo::ite" THEN
    IF Len(t[2]) # 3 THEN t
    ELSE LET c == Eval(S, t[2][1], ctx)
         IN IF c[1] = "TF" THEN Eval(S, t[2][IF c[2] THEN 2 ELSE 3], ctx)
            ELSE Mk("eo::ite", <<c, Eval(S, t[2][2], ctx), Eval(S, t[2][3], ctx)>>)
  ELSE LET ch == EvalCh(S, t[2], ctx, 1)
       IN IF t[1] \in {"APPLY","OPQ"} /\ ch[1][1] = "PROG" THEN
            LET r == RunProg(S, ch, 1)
            IN IF r[1] THEN Eval(S, r[2], r[3]) ELSE Mk(t[1], ch)
          ELSE IF t[1] \in LitOps THEN
            LET r == LitOp(S, t[1], ch) IN IF r = NULL THEN Mk(t[1], ch) ELSE r
          ELSE Mk(t[1], ch)
EvalCh(S, ts, ctx, i) ==
  IF i > Len(ts) THEN <<>> ELSE <<Eval(S, ts[i], ctx)>> \o EvalCh(S, ts, ctx, i+1)

\* Application ch of a program: <<runs, right-hand side, match>>.  It runs when all
\* arguments are ground values and some case matches; the first one counts.
ProgCases(S, p) == S.tab[p[2]].pr
RunProg(S, ch, i) ==
  LET cases == ProgCases(S, ch[1])
  IN IF i = 1 /\ (cases = <<>> \/ ~AllGround(ch) \/ \E j \in 2..Len(ch) : EV(ch[j])) THEN <<FALSE>>
     ELSE IF i > Len(cases) THEN <<FALSE>>
     ELSE IF i = 1 /\ ~Fuel(ch) THEN <<FALSE>>
     ELSE LET pat == cases[i][1]
          IN IF Len(pat) # Len(ch) THEN <<FALSE>>
             ELSE LET m == MatchArgs(pat, ch, EmptyCtx, 2)
                  IN IF m[1] THEN <<TRUE, cases[i][2], m[2]>> ELSE RunProg(S, ch, i+1)

\* ---------------------------------------------------------------------------
\* Operators on evaluated arguments; NULL: stays unevaluated
StripOpq(t) == IF t[1] = "OPQ" THEN t[2][1] ELSE t
RECURSIVE AppHead(_)
AppHead(t) == IF t[1] = "APPLY" THEN AppHead(t[2][1]) ELSE t
IsKind(op, x) == CASE op = "eo::is_z" -> x[1] = "Z"
                   [] op = "eo::is_q" -> x[1] = "Q"
                   [] op = "eo::is_bin" -> x[1] = "BIN"
                   [] op = "eo::is_str" -> x[1] = "STR"
                   [] op = "eo::is_bool" -> x[1] = "TF"
                   [] op = "eo::is_var" -> x[1] = "VAR"
IsKindOps == {"eo::is_z","eo::is_q","eo::is_bin","eo::is_str","eo::is_bool","eo::is_var"}

\* Hashes are abstract: an injective function of the term (EoHash), of which S.H is the known part
LitOp(S, op, a) ==
  IF ~ArityOk(op, Len(a)) THEN NULL
  ELSE IF op = "eo::ite" THEN (IF a[1][1] = "TF" THEN (IF a[1][2] THEN a[2] ELSE a[3]) ELSE NULL)
  ELSE IF op = "eo::requires" THEN
    (IF ~NG(a[1]) /\ ~EV(a[1]) /\ a[1] = a[2] THEN a[3] ELSE NULL)
  ELSE IF ~AllGround(a) THEN NULL
  ELSE CASE op = "eo::is_ok" -> TF(~EV(a[1]))
         [] op = "eo::is_eq" -> TF(~EV(a[1]) /\ ~EV(a[2]) /\ a[1] = a[2])
         [] op = "eo::eq" -> IF EV(a[1]) \/ EV(a[2]) THEN NULL ELSE TF(a[1] = a[2])
         [] op = "eo::hash" -> IF EV(a[1]) \/ ~HKnown(S.H, a[1]) THEN NULL ELSE ZLit(HValue(S.H, a[1]))
         [] op = "eo::cmp" -> IF EV(a[1]) \/ EV(a[2]) \/ ~HKnown(S.H, a[1]) \/ ~HKnown(S.H, a[2]) THEN NULL
                              ELSE TF(BCmp(HValue(S.H, a[1]), HValue(S.H, a[2])) = 1)
         [] op \in IsKindOps -> TF(IsKind(op, a[1]))
         [] op = "eo::typeof" ->
              IF EV(a[1]) THEN NULL
              ELSE LET ty == TypeOf(S, a[1]) IN IF ty = NULL \/ NG(ty) THEN NULL ELSE ty
         [] op = "eo::nameof" ->
              (CASE a[1][1] = "CONST" -> STR(NameCodes(S.tab[a[1][2]].nm))
                 [] a[1][1] = "VAR" -> STR(a[1][2][1])
                 [] OTHER -> NULL)
         [] op = "eo::var" ->
              IF a[1][1] = "STR" /\ ~EV(a[2]) /\ TypeOf(S, a[2]) = TYPE
              THEN VARt(StrText(a[1][2]), a[2]) ELSE NULL
         [] op = "eo::dt_selectors" ->
              LET s == StripOpq(a[1])
              IN IF AttrOf(S, s) \in {"DTC","AMB_DTC"} THEN ConsOf(S, s) ELSE NULL
         [] op = "eo::dt_constructors" ->
              LET par == a[1][1] = "APPLY" /\ TypeOf(S, a[1]) = TYPE
                  s == IF par THEN AppHead(a[1]) ELSE a[1]
              IN IF AttrOf(S, s) # "DT" THEN NULL
                 ELSE IF ~par THEN ConsOf(S, s)
                 ELSE LET cs == Elems(ConsOf(S, s), ListCons, FALSE)
                          cs2 == Tup([i \in DOMAIN cs |->
                                   IF AttrOf(S, cs[i]) = "AMB_DTC" THEN Mk("OPQ", <<cs[i], a[1]>>) ELSE cs[i]])
                      IN MkListOf(ListCons, cs2, ListNil, FALSE)
         [] OTHER ->
              IF \A i \in DOMAIN a : a[i][1] \in LitTags THEN EvLiterals(op, a)
              ELSE IF op \in ListOps THEN ListOp(S, op, a)
              ELSE NULL

ListOp(S, op, a) ==
  LET f == IF a[1][1] = "PARAMD" THEN a[1][2][2] ELSE a[1]
      at == AttrOf(S, f)
      left == at \in LeftAttrs
  IN IF at \notin AssocNil THEN NULL
     ELSE IF op = "eo::nil" THEN ConsTerm(S, <<f, a[1], TMP(a[2])>>)
     ELSE LET nil == ConsTerm(S, <<f, a[1], a[2]>>)
              IsL(t) == ListEnd(t, f, left) = nil
              El(t) == Elems(t, f, left)
              Mkl(xs) == MkListOf(f, xs, nil, left)
              B(b) == TF(b)
          IN IF nil = NULL THEN NULL
             ELSE CASE op = "eo::cons" -> IF IsL(a[3]) THEN Prepend(f, <<a[2]>>, a[3], left) ELSE NULL
                    [] op = "eo::list_concat" ->
                         IF ~IsL(a[2]) \/ ~IsL(a[3]) THEN NULL
                         ELSE IF left THEN Mkl(El(a[3]) \o El(a[2])) ELSE Mkl(El(a[2]) \o El(a[3]))
                    [] op = "eo::list_minclude" \/ op = "eo::list_meq" ->
                         IF ~IsL(a[2]) \/ ~IsL(a[3]) THEN NULL
                         ELSE IF op = "eo::list_meq" THEN B(MEq(El(a[2]), El(a[3]))) ELSE B(MInclude(El(a[2]), El(a[3])))
                    [] op = "eo::list_diff" \/ op = "eo::list_inter" ->
                         IF ~IsL(a[2]) \/ ~IsL(a[3]) THEN NULL
                         ELSE Mkl(IF op = "eo::list_diff" THEN SeqDiff(El(a[2]), El(a[3])) ELSE SeqInter(El(a[2]), El(a[3])))
                    [] OTHER ->
                         IF ~IsL(a[2]) THEN NULL
                         ELSE LET xs == El(a[2])
                              IN CASE op = "eo::list_len" -> ZInt(Len(xs))
                                   [] op = "eo::list_nth" ->
                                        IF a[3][1] # "Z" \/ BSgn(a[3][2]) < 0 \/ BCmp(a[3][2], BOfInt(Len(xs))) >= 0 THEN NULL
                                        ELSE xs[BToInt(a[3][2]) + 1]
                                   [] op = "eo::list_find" -> ZInt(FirstIndex(xs, a[3], 1))
                                   [] op = "eo::list_erase" -> Mkl(SeqErase(xs, a[3]))
                                   [] op = "eo::list_erase_all" -> Mkl(SeqEraseAll(xs, a[3]))
                                   [] op = "eo::list_rev" -> Mkl(Rev(xs))
                                   [] op = "eo::list_setof" -> Mkl(SeqSetOf(xs, <<>>))
                                   [] op = "eo::list_singleton_elim" -> IF Len(xs) = 1 THEN xs[1] ELSE a[2]
                                   [] OTHER -> NULL

\* ---------------------------------------------------------------------------
\* Types; NULL: ill-typed
LitType(S, k, self) ==
  IF S.lit[k] = NULL THEN ANY
  ELSE IF NG(S.lit[k]) THEN Eval(S, S.lit[k], SelfId :> self) ELSE S.lit[k]
TypesOf(S, ts, i) == IF i > Len(ts) THEN <<>> ELSE <<TypeOf(S, ts[i])>> \o TypesOf(S, ts, i+1)
ValidType(ty) == IF ty = NULL \/ (~NG(ty) /\ EV(ty)) THEN NULL ELSE ty
TypeOf(S, t) ==
  CASE t[1] \in SymTags -> S.tab[t[2]].ty
    [] t[1] = "VAR" -> t[2][2]
    [] t[1] = "TMP" -> t[2]
    [] t[1] = "BLT" -> ANY
    [] t[1] \in {"TYPE","BOOLT","ANY"} -> TYPE
    [] t[1] = "TF" -> BOOLT
    [] t[1] \in LitTags -> ValidType(LitType(S, t[1], t))
    [] t[1] \in {"NULL","ERR"} -> NULL
    [] OTHER ->
       LET tys == TypesOf(S, t[2], 1)
       IN IF \E i \in DOMAIN tys : tys[i] = NULL THEN NULL
          ELSE CASE t[1] \in {"APPLY","OPQ"} -> ValidType(TypeApp(S, t[2], tys, 2, EmptyCtx)[1])
                 [] t[1] = "LAM" -> ValidType(FunType(TypesOf(S, t[2][1][2], 1), tys[2]))
                 [] t[1] \in {"FUN","PTY"} -> TYPE
                 [] t[1] = "PF" -> IF tys[1] = BOOLT THEN ProofTy ELSE NULL
                 [] t[1] \in {"QUOTE","TUPLE"} -> ANY
                 [] t[1] = "PARAMD" -> tys[2]
                 [] t[1] \in LitOps -> ValidType(LitOpType(S, t[1], t[2], tys))
                 [] OTHER -> NULL
\* type of an application: <<type, instantiation>>, arguments from i on
TypeApp(S, ch, tys, i, ctx) ==
  LET h == tys[1]
  IN IF h[1] \notin {"FUN","PTY"} THEN <<NULL, ctx>>
     ELSE IF Len(h[2]) # Len(ch) THEN <<NULL, ctx>>
     ELSE IF i > Len(ch) THEN <<Eval(S, Last(h[2]), ctx), ctx>>
     ELSE LET at == h[2][i-1]
              m == IF at[1] = "QUOTE"
                   THEN IF tys[i] = TypeOf(S, at[2][1])
                        THEN Match(at[2][1], ch[i], ctx)
                        ELSE Match(TypeOf(S, at[2][1]), tys[i], ctx)
                   ELSE Match(at, tys[i], ctx)
          IN IF m[1] THEN TypeApp(S, ch, tys, i+1, m[2]) ELSE <<NULL, m[2]>>
LitOpType(S, op, ch, tys) ==
  IF ~ArityOk(op, Len(ch)) THEN NULL
  ELSE CASE op = "eo::typeof" -> TYPE
         [] op \in {"eo::var","eo::nil"} -> ch[2]
         [] op \in {"eo::add","eo::mul","eo::neg","eo::and","eo::or","eo::xor","eo::not",
                    "eo::concat","eo::extract"} -> tys[1]
         [] op \in {"eo::ite","eo::cons","eo::list_concat","eo::list_nth","eo::list_erase",
                    "eo::list_erase_all","eo::list_rev","eo::list_setof","eo::list_diff",
                    "eo::list_inter","eo::list_singleton_elim"} -> tys[2]
         [] op = "eo::requires" -> tys[3]
         [] op \in {"eo::is_ok","eo::is_eq","eo::eq","eo::is_neg","eo::cmp","eo::gt",
                    "eo::list_minclude","eo::list_meq"} \cup IsKindOps -> BOOLT
         [] op \in {"eo::hash","eo::zdiv","eo::zmod","eo::to_z","eo::len","eo::find",
                    "eo::list_len","eo::list_find"} -> LitType(S, "Z", ANY)
         [] op \in {"eo::qdiv","eo::to_q"} -> LitType(S, "Q", ANY)
         [] op \in {"eo::nameof","eo::to_str"} -> LitType(S, "STR", ANY)
         [] op = "eo::to_bin" -> LitType(S, "BIN", ANY)
         [] op \in {"eo::dt_constructors","eo::dt_selectors"} -> ListTy
         [] OTHER -> NULL

\* The term of a symbol's attribute (nil terminator, ...), instantiated for an
\* application.  fch = <<symbol whose attribute it is>> \o children of the application.
ConsTerm(S, fch) ==
  LET ct == ConsOf(S, fch[1])
      ch == Tail(fch)
  IN IF ct = NULL \/ ct[1] # "PARAMD" THEN ct
     ELSE IF Len(ch) = 1 \/ AttrOf(S, fch[1]) \notin NAryAttrs THEN NULL
     ELSE LET app == <<ch[1], ch[2]>>
              tys == TypesOf(S, app, 1)
          IN IF tys[1] = NULL \/ tys[2] = NULL THEN NULL
             ELSE LET ctx == TypeApp(S, app, tys, 2, EmptyCtx)[2]
                      ps == ct[2][1][2]
                  IN IF \E i \in DOMAIN ps : ps[i][2] \notin DOMAIN ctx THEN NULL
                     ELSE IF \E i \in DOMAIN ps : NG(ctx[ps[i][2]]) THEN NULL
                     ELSE Eval(S, ct[2][2], ctx)

\* ---------------------------------------------------------------------------
\* Construction of operator applications
MkLit(S, op, a) ==
  IF op \in ArithOps /\ Len(a) > 2
  THEN LET RECURSIVE F(_,_)
           F(curr, i) == IF i > Len(a) THEN curr ELSE F(MkLit(S, op, <<curr, a[i]>>), i+1)
       IN F(MkLit(S, op, <<a[1], a[2]>>), 3)
  ELSE IF ~ArityOk(op, Len(a)) THEN Mk(op, a)
  ELSE LET r == LitOp(S, op, a) IN IF r = NULL THEN Mk(op, a) ELSE r

\* Construction of an application as written: head ch[1] applied to the others
Overloads(S, hd) ==
  IF hd \notin DOMAIN S.ov THEN <<>>
  ELSE LET ns == S.ov[hd]
           good == {i \in DOMAIN ns : /\ ns[i] \in DOMAIN S.sym
                                      /\ Len(S.sym[ns[i]]) >= 2
                                      /\ Last(S.sym[ns[i]]) = hd}
       IN IF good = {} THEN <<>>
          ELSE S.sym[ns[CHOOSE i \in good : \A j \in good : j <= i]]
MkApp(S, ch) ==
  LET hd == ch[1]
      args == Tail(ch)
  IN IF hd[1] = "BLT" THEN
       (CASE hd[2] \in {"->","_"} /\ args = <<>> -> Mk("APPLY", ch)
          [] hd[2] = "->" -> FunType(Front(args), Last(args))
          [] hd[2] = "_" -> App(args)
          [] hd[2] \in {"as","eo::as"} -> MkAs(S, ch)
          [] OTHER -> MkLit(S, hd[2], args))
     ELSE LET ovs == Overloads(S, hd)
              op == IF ovs = <<>> THEN NULL ELSE Overload(S, ovs, args, NULL, Len(ovs))
          IN IF op # NULL /\ op # hd THEN MkApp(S, <<op>> \o args)
             ELSE LET r == IF HasInfo(S, hd) THEN MkApplyAttr(S, ch, ConsTerm(S, <<hd>> \o ch)) ELSE NULL
                  IN IF r # NULL THEN r
                     ELSE IF hd[1] = "LAM" /\ Len(hd[2][1][2]) = Len(args) THEN
                       LET vs == hd[2][1][2]
                           RECURSIVE C(_)
                           C(i) == IF i = 0 THEN EmptyCtx ELSE Bind(C(i-1), vs[i][2], args[i])
                       IN Eval(S, hd[2][2], C(Len(vs)))
                     ELSE IF hd[1] = "PROG" THEN
                       (IF AttrOf(S, hd) # "NONE" /\ Len(Ch(TypeOf(S, hd))) = Len(ch)
                        THEN LET m == RunProg(S, ch, 1)
                             IN IF m[1] THEN Eval(S, m[2], m[3]) ELSE Mk("APPLY", ch)
                        ELSE Mk("APPLY", ch))
                     ELSE IF hd[1] = "RULE" THEN Mk("APPLY", ch)
                     ELSE App(ch)

\* candidates ovs[1..i], the latest first: the first one whose application to the
\* arguments is well typed (and has type ret, unless ret is NULL)
Overload(S, ovs, args, ret, i) ==
  IF i = 0 THEN NULL
  ELSE LET hd == ovs[i]
           ch == <<hd>> \o args
           x0 == IF HasInfo(S, hd) THEN MkApplyAttr(S, ch, ConsTerm(S, <<hd>> \o ch)) ELSE NULL
           x == IF x0 # NULL THEN x0
                ELSE IF hd[1] = "PROG" THEN Mk("APPLY", ch) ELSE App(ch)
           ty == TypeOf(S, x)
       IN IF ty # NULL /\ (ret = NULL \/ ty = ret) THEN hd ELSE Overload(S, ovs, args, ret, i-1)

\* (as c T) and (eo::as c T)
RECURSIVE FlatFun(_)
RECURSIVE StripReq(_)
StripReq(t) == IF t[1] = "eo::requires" /\ Len(t[2]) = 3 THEN StripReq(t[2][3]) ELSE t
\* argument types and result of a function type; requirements below an arrow are dropped
FlatFun(t) == IF t[1] = "FUN"
              THEN LET r == FlatFun(StripReq(t[2][2])) IN <<<<t[2][1]>> \o r[1], r[2]>>
              ELSE <<<<>>, t>>
MkAs(S, ch) ==
  LET tag == IF ch[1][2] = "as" THEN "ASRET" ELSE "AS"
      args == Tail(ch)
  IN IF tag = "ASRET"
     THEN IF Len(args) = 2 /\ AttrOf(S, args[1]) \in {"AMB","AMB_DTC"} THEN Mk("OPQ", args) ELSE Mk(tag, args)
     ELSE IF Len(args) # 2 THEN Mk(tag, args)
     ELSE LET ft == FlatFun(args[2])
              dummies == Tup([i \in DOMAIN ft[1] |-> TMP(ft[1][i])])
              ovs == Overloads(S, args[1])
              cand == IF ovs = <<>> THEN <<args[1]>> ELSE ovs
              op == Overload(S, cand, dummies, ft[2], Len(cand))
          IN IF op = NULL THEN Mk(tag, args) ELSE op

\* ---------------------------------------------------------------------------
\* Desugaring by attribute; NULL: no special form
MkApplyAttr(S, ch, cons) ==
  LET hd == ch[1]
      at == AttrOf(S, hd)
      n == Len(ch)
  IN CASE at \in AssocAttrs ->
          IF n < 2 THEN cons
          ELSE LET left == at \in LeftAttrs
                   isNil == at \in AssocNil
                   ns == at \in {"RA_NS_NIL","LA_NS_NIL"}
                   \* the arguments in the order in which they are folded in
                   ord == IF left THEN Tail(ch) ELSE Rev(Tail(ch))
                   withNil == isNil /\ AttrOf(S, ord[1]) # "LIST"
                   start == IF ~withNil THEN ord[1]
                            ELSE IF cons # NULL THEN cons
                            ELSE Mk("eo::nil", <<hd, Mk("eo::typeof", <<ch[2]>>)>>)
                   rest == IF withNil THEN ord ELSE Tail(ord)
                   IsList(x) == isNil /\ AttrOf(S, x) = "LIST"
                   Step(curr, x) ==
                     IF IsList(x)
                     THEN Mk("eo::list_concat", IF left THEN <<hd, curr, x>> ELSE <<hd, x, curr>>)
                     ELSE Curry(IF left THEN <<hd, curr, x>> ELSE <<hd, x, curr>>)
                   RECURSIVE Fold(_,_)
                   Fold(curr, i) == IF i > Len(rest) THEN curr ELSE Fold(Step(curr, rest[i]), i+1)
                   res == Fold(start, 1)
                   nonlist == Cardinality({i \in DOMAIN rest : ~IsList(rest[i])})
               IN IF ns /\ nonlist < 2 THEN MkLit(S, "eo::list_singleton_elim", <<hd, res>>) ELSE res
     [] at = "CHAINABLE" ->
          LET ps == Tup([i \in 1..(IF n < 2 THEN 0 ELSE n-2) |-> Curry(<<hd, ch[i+1], ch[i+2]>>)])
          IN IF Len(ps) = 1 THEN ps[1] ELSE IF cons = NULL THEN NULL ELSE MkApp(S, <<cons>> \o ps)
     [] at = "PAIRWISE" ->
          LET RECURSIVE P(_,_)
              P(i, j) == IF i > n-1 THEN <<>> ELSE IF j > n THEN P(i+1, i+2)
                         ELSE <<Curry(<<hd, ch[i], ch[j]>>)>> \o P(i, j+1)
              ps == P(2, 3)
          IN IF Len(ps) = 1 THEN ps[1] ELSE IF cons = NULL THEN NULL ELSE MkApp(S, <<cons>> \o ps)
     [] at = "ARG_LIST" ->
          IF n = 2 /\ AttrOf(S, ch[2]) = "LIST" THEN Mk("APPLY", <<hd, ch[2]>>)
          ELSE IF cons = NULL THEN NULL
          ELSE Mk("APPLY", <<hd, MkApp(S, <<cons>> \o Tail(ch))>>)
     [] at = "OPAQUE" ->
          LET k == BToInt(ConsOf(S, hd)[2])
          IN IF k >= n THEN NULL
             ELSE LET op == CurryFrom("OPQ", hd, SubSeq(ch, 2, k+1), 1)
                  IN IF k + 1 = n THEN op ELSE App(<<op>> \o SubSeq(ch, k+2, n))
     [] OTHER -> NULL
=============================================================================
