------------------------------- MODULE EoTerm -------------------------------
(***************************************************************************)
(* Terms.  A term is <<tag, payload, flags>>.  Bit 0 of flags: the term is *)
(* non-ground (mentions a parameter).  Bit 1: the term is evaluatable, it  *)
(* contains a program or a literal operator that has not been evaluated.   *)
(* Two terms denote the same object iff they are equal as TLA+ values.     *)
(*                                                                         *)
(* Leaves:                                                                 *)
(*   CONST id   PARAM id   PROG id   RULE id   symbols of the table        *)
(*   BLT name            a builtin operator name, not yet applied          *)
(*   VAR <<codes,type>>  a bound variable, fixed by its name and type      *)
(*   TMP type            an anonymous constant of that type                *)
(*   TYPE, BOOLT, ANY    Type, Bool and the untyped type                   *)
(*   TF Z Q D BIN HEX STR  literals                                        *)
(* Compounds: payload is the sequence of children                          *)
(*   APPLY OPQ FUN PTY QUOTE TUPLE LAM PF PARAMD AS ASRET and the literal  *)
(*   operators, whose tag is their name eo::...                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Big

NULL == <<"NULL", "", 0>>
ERR(msg) == <<"ERR", msg, 0>>
IsErr(t) == t[1] = "ERR"

LeafTags == {"CONST","PARAM","PROG","RULE","BLT","VAR","TMP","TYPE","BOOLT","ANY",
             "TF","Z","Q","D","BIN","HEX","STR","NULL","ERR"}
LitTags == {"TF","Z","Q","D","BIN","HEX","STR"}
SymTags == {"CONST","PARAM","PROG","RULE"}

IsLeaf(t) == t[1] \in LeafTags
NG(t) == t[3] % 2 = 1
EV(t) == t[3] >= 2
Ch(t) == IF IsLeaf(t) THEN <<>> ELSE t[2]

TYPE  == <<"TYPE", "", 0>>
BOOLT == <<"BOOLT", "", 0>>
ANY   == <<"ANY", "", 3>>
TF(b) == <<"TF", b, 0>>
TRUEt == TF(TRUE)
FALSEt == TF(FALSE)
ZLit(b) == <<"Z", b, 0>>
ZInt(n) == ZLit(BOfInt(n))
QLit(q) == <<"Q", q, 0>>
STR(cs) == <<"STR", cs, 0>>
CONST(id) == <<"CONST", id, 0>>
PARAM(id) == <<"PARAM", id, 1>>
PROG(id)  == <<"PROG", id, 2>>
RULE(id)  == <<"RULE", id, 0>>
BLT(n) == <<"BLT", n, 0>>
VARt(codes, ty) == <<"VAR", <<codes, ty>>, 0>>
TMP(ty) == <<"TMP", ty, 0>>

ArithOps == {"eo::and","eo::or","eo::xor","eo::add","eo::mul","eo::concat"}
LitOp1 == {"eo::is_ok","eo::typeof","eo::nameof","eo::hash","eo::not","eo::neg","eo::is_neg",
           "eo::len","eo::to_z","eo::to_q","eo::to_str","eo::is_z","eo::is_q","eo::is_bin",
           "eo::is_str","eo::is_bool","eo::is_var","eo::dt_constructors","eo::dt_selectors"}
LitOp2 == {"eo::is_eq","eo::var","eo::eq","eo::zdiv","eo::zmod","eo::qdiv","eo::to_bin",
           "eo::find","eo::cmp","eo::gt","eo::list_len","eo::list_rev","eo::list_setof",
           "eo::list_singleton_elim","eo::nil"} \cup ArithOps
LitOp3 == {"eo::list_concat","eo::requires","eo::ite","eo::cons","eo::list_find",
           "eo::list_erase","eo::list_erase_all","eo::list_nth","eo::list_minclude",
           "eo::list_meq","eo::list_diff","eo::list_inter","eo::extract"}
LitOps == LitOp1 \cup LitOp2 \cup LitOp3
ListOps == {"eo::nil","eo::cons","eo::list_len","eo::list_concat","eo::list_nth",
            "eo::list_find","eo::list_rev","eo::list_erase","eo::list_erase_all",
            "eo::list_setof","eo::list_minclude","eo::list_meq","eo::list_diff",
            "eo::list_inter","eo::list_singleton_elim"}
ArityOk(op, n) == \/ n = 1 /\ op \in LitOp1
                  \/ n = 2 /\ (op \in LitOp2 \/ op = "eo::extract")
                  \/ n = 3 /\ op \in LitOp3

\* a sequence from a function on 1..n, evaluated at once
Tup(f) == <<>> \o f

Mk(tag, ch) ==
  LET ng == \E i \in DOMAIN ch : ch[i][3] % 2 = 1
      ev == tag \in LitOps \/ \E i \in DOMAIN ch : ch[i][3] >= 2
  IN <<tag, ch, (IF ng THEN 1 ELSE 0) + (IF ev THEN 2 ELSE 0)>>

AllGround(ch) == \A i \in DOMAIN ch : ~NG(ch[i])

RECURSIVE CurryFrom(_,_,_,_)
CurryFrom(tag, t, args, i) ==
  IF i > Len(args) THEN t ELSE CurryFrom(tag, Mk(tag, <<t, args[i]>>), args, i+1)
\* (((f a1) a2) ...)
Curry(ch) == CurryFrom("APPLY", ch[1], ch, 2)
App(ch) == IF Len(ch) > 2 THEN Curry(ch) ELSE Mk("APPLY", ch)

RECURSIVE FunFrom(_,_,_)
FunFrom(args, i, ret) == IF i = 0 THEN ret ELSE FunFrom(args, i-1, Mk("FUN", <<args[i], ret>>))
FunType(args, ret) == FunFrom(args, Len(args), ret)

Range(s) == {s[i] : i \in DOMAIN s}
Rev(s) == Tup([i \in 1..Len(s) |-> s[Len(s)+1-i]])
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s)-1)
IsPrefix2(p, s) == Len(p) <= Len(s) /\ \A i \in DOMAIN p : p[i] = s[i]

\* the parameters that occur in t
RECURSIVE ParamsOf(_)
ParamsOf(t) ==
  IF ~NG(t) THEN {}
  ELSE IF t[1] = "PARAM" THEN {t[2]}
  ELSE IF IsLeaf(t) THEN {}
  ELSE UNION {ParamsOf(t[2][i]) : i \in DOMAIN t[2]}

\* does s occur in t
RECURSIVE Occurs(_,_)
Occurs(s, t) == t = s \/ (~IsLeaf(t) /\ \E i \in DOMAIN t[2] : Occurs(s, t[2][i]))
=============================================================================
