------------------------------- MODULE EoTrace -------------------------------
(***************************************************************************)
(* Behaviours of the checker on given jobs.  A job is a set of files, the  *)
(* options of the command line and the commands of the main file, which    *)
(* may contain the directive (?eval t): what is t here?  Every job is an   *)
(* initial state, every transition executes one command of its main file;  *)
(* a rejected command is reported and skipped.  The reports are what the   *)
(* conformance driver compares with the real checker.                      *)
(***************************************************************************)
EXTENDS EoChecker, Json, IOUtils

\* Job input, kept in TLC registers (definitions of constants are evaluated at every use)
ASSUME TLCSet(11, JsonDeserialize(IOEnv.EO_JOBS))
ASSUME TLCSet(12, JsonDeserialize(IOEnv.EO_NAMES))
ASSUME TLCSet(21, 0) /\ TLCSet(22, 400)
Jobs == TLCGet(11)
\* the characters of a name: as given with the jobs, or as written by EoLex!NameOf
RECURSIVE CodesFrom(_,_)
CodesFrom(n, k) ==
  IF k > Len(n) THEN <<>>
  ELSE LET c == SubSeq(n, k, k)
           hx(x) == (CHOOSE v \in 1..16 : CHex[v] = x) - 1
       IN IF c = "\t" THEN <<16 * hx(SubSeq(n, k+1, k+1)) + hx(SubSeq(n, k+2, k+2))>> \o CodesFrom(n, k+3)
          ELSE <<31 + (CHOOSE v \in 1..95 : CAscii[v] = c)>> \o CodesFrom(n, k+1)
CodesIn(n) == IF n \in DOMAIN TLCGet(12) THEN TLCGet(12)[n] ELSE CodesFrom(n, 1)
FilesIn(j) == Jobs[j].files
\* at most this many program calls in one command; a job that needs more is not used
\* (register 22, set by each step to the job's limit)
MaxFuel == TLCGet(22)
MaxSize == 3000
RECURSIVE SizeLeft(_,_,_)
\* n minus the size of ts[k..], 0 if that is larger
SizeLeft(ts, k, n) == IF n <= 0 \/ k > Len(ts) THEN n
                      ELSE SizeLeft(ts, k+1, IF IsLeaf(ts[k]) THEN n-1 ELSE SizeLeft(ts[k][2], 1, n-1))
FuelLeft(ch) == /\ TLCGet(21) < MaxFuel
                /\ TLCSet(21, IF SizeLeft(ch, 1, MaxSize) <= 0 THEN MaxFuel ELSE TLCGet(21) + 1)
                /\ TLCGet(21) < MaxFuel
DirsIn(j) == {Jobs[j].dirs[k] : k \in DOMAIN Jobs[j].dirs}

VARIABLES i, S, last

\* ---------------------------------------------------------------------------
\* Written syntax that denotes the ground value t in S; <<"null">> if none is known
NoAst == <<"null">>
Sy(n) == <<"s", n>>
RECURSIVE Rend(_,_), OpqArgs(_)
OpqArgs(t) == IF t[1] = "OPQ" THEN OpqArgs(t[2][1]) \o Tail(t[2]) ELSE <<t>>
RendAll(T, hd, ts) == LET rs == Tup([k \in DOMAIN ts |-> Rend(T, ts[k])])
                      IN IF \E k \in DOMAIN rs : rs[k] = NoAst THEN NoAst ELSE <<"l", hd \o rs>>
Visible(T, n, t) == IF Look(T, n) = t THEN <<"qs", n>> ELSE NoAst
Rend(T, t) ==
  LET lit == CASE t[1] = "Z" -> <<"z", t[2]>> [] t[1] = "Q" -> <<"q", t[2]>>
               [] t[1] = "D" -> <<"d", t[2]>> [] t[1] = "HEX" -> <<"x", t[2]>>
               [] t[1] = "BIN" -> <<"b", t[2]>> [] t[1] = "STR" -> <<"str", t[2], <<>>>>
               [] OTHER -> NoAst
  IN IF NG(t) \/ EV(t) THEN NoAst
     ELSE IF t[1] \in {"BIN","HEX"} /\ t[2] = <<>> THEN NoAst
     ELSE IF lit # NoAst THEN (IF ElabLit(T, lit) = t THEN lit ELSE NoAst)
     ELSE CASE t[1] = "TF" -> LET n == IF t[2] THEN "true" ELSE "false"
                              IN IF Look(T, n) = t THEN Sy(n) ELSE NoAst
            [] t[1] = "CONST" -> Visible(T, T.tab[t[2]].nm, t)
            [] t[1] = "BOOLT" -> Sy("Bool")
            [] t[1] = "TYPE" -> IF T.cls = "sig" THEN Sy("Type") ELSE NoAst
            [] t[1] = "VAR" ->
                 LET ty == Rend(T, t[2][2])
                 IN IF ty = NoAst THEN NoAst ELSE <<"l", <<Sy("eo::var"), <<"str", t[2][1], <<>>>>, ty>>>>
            [] t[1] = "APPLY" -> RendAll(T, <<Sy("_")>>, t[2])
            [] t[1] = "FUN" -> RendAll(T, <<Sy("->")>>, t[2])
            [] t[1] = "OPQ" ->
                 LET as == OpqArgs(t)
                 IN IF AttrOf(T, as[1]) = "OPAQUE" THEN RendAll(T, <<>>, as)
                    ELSE RendAll(T, <<Sy("as")>>, as)
            [] OTHER -> NoAst
\* a rendering is used only if it denotes the value
Rend1(T, t) == LET a == Rend(T, t)
               IN IF a = NoAst THEN a ELSE IF Elab(T, a) = t THEN a ELSE NoAst

\* ---------------------------------------------------------------------------
Job(s) == Jobs[s.job]
Main(s) == Job(s).files[1]
Cmds(s) == Main(s).cmds
IsEval(c) == c[1] = "l" /\ c[2] # <<>> /\ c[2][1] \in {<<"s", "?eval">>, <<"s", "?proves">>}
IsAsk(c) == c[1] = "l" /\ c[2] # <<>> /\ c[2][1] \in {<<"s", "?hash">>, <<"s", "?cmp">>}

Say(x) == PrintT(ToJson(x))

\* the files of the command line, then the main file is entered
RECURSIVE Pre(_,_,_)
Pre(s, ps, k) ==
  IF k > Len(ps) THEN <<s, <<>>>>
  ELSE LET fi == Resolve(s, ps[k][2])
           r == IF fi = 0 THEN Bad(s) ELSE Include(s, fi, ps[k][1], NULL, 0)
           rest == Pre(r.S, ps, k+1)
       IN <<rest[1], <<<<r.ok, r.at>>>> \o rest[2]>>

Start(j) ==
  LET J == Jobs[j]
      s0 == InitS(j, SetOpts(J.opt, J.flags, 1), "proof", J.cwd)
      p == Pre(s0, J.pre, 1)
      s1 == p[1]
      skip == J.main # "stdin" /\ RealFile(s1, 1) \in s1.inc
      s2 == IF J.main = "stdin"
            THEN [s1 EXCEPT !.let = s1.opt.let]
            ELSE [s1 EXCEPT !.cls = J.main, !.let = (J.main # "sig" /\ s1.opt.let),
                            !.dir = Front(J.files[1].path),
                            !.inc = @ \cup {RealFile(s1, 1)}]
  IN [s |-> IF skip THEN s1 ELSE s2, skip |-> skip, pre |-> p[2]]

\* (Operators that reach the semantics take an argument: TLC tries to evaluate operators
\* without arguments in advance, which takes forever on a graph of recursive operators.)
Init == /\ S \in {[job |-> j] : j \in DOMAIN Jobs}
        /\ i = -1
        /\ last = "init"

Begin(d) ==
  /\ i = -1
  /\ TLCSet(21, 0) /\ TLCSet(22, Jobs[S.job].fuel)
  /\ LET st == Start(S.job)
     IN /\ S' = st.s
        /\ i' = IF st.skip THEN Len(Jobs[S.job].files[1].cmds) ELSE 0
        /\ last' = "begin"
        /\ Say(<<"pre", S.job, st.pre, st.skip>>)

\* (?proves p): the formula that p is a proof of
ProvesReport(c) ==
  LET t == Elab(S, c[2][2])
  IN <<"proves", S.job, i+1, t[1] = "PF", IF t[1] = "PF" THEN Rend1(S, t[2][1]) ELSE NoAst>>

\* (?eval t t): what t is, and its type
EvalReport(c) ==
  LET t == IF Len(c[2]) \in {2, 3} THEN Elab(S, c[2][2]) ELSE ERR("")
      ty == IF IsErr(t) \/ NG(t) THEN NULL ELSE TypeOf(S, t)
  IN <<"eval", S.job, i+1, ~IsErr(t),
       IF IsErr(t) THEN NoAst ELSE Rend1(S, t),
       ~IsErr(t) /\ ~NG(t) /\ EV(t),
       IF ty = NULL \/ EV(t) THEN NoAst ELSE Rend1(S, ty),
       ~IsErr(t) /\ ~NG(t) /\ ~EV(t) /\ ty = NULL>>

\* (?hash t) and (?cmp a b): is t (are a and b) known to the full?  With the answer the real checker
\* gave as last item: does it fit (EoHash) the answers before?
Status(t) == IF IsErr(t) THEN "error" ELSE IF NG(t) \/ EV(t) THEN "open" ELSE "value"
Ask(c) ==
  LET n == IF c[2][1][2] = "?hash" THEN 1 ELSE 2
      ts == [k \in 1..n |-> Elab(S, c[2][k+1])]
      st == IF \E k \in 1..n : Status(ts[k]) = "error" THEN "error"
            ELSE IF \A k \in 1..n : Status(ts[k]) = "value" THEN "value" ELSE "open"
      v == c[2][n+2][2]
      told == Len(c[2]) > n+1 /\ st = "value"
      fits == ~told \/ (IF n = 1 THEN HashFits(S.H, ts[1], v) ELSE CmpFits(S.H, ts[1], ts[2], v = "true"))
      tell == IF n = 1 THEN HashTell(S.H, ts[1], v) ELSE CmpTell(S.H, ts[1], ts[2], v = "true")
  IN [say |-> <<"ask", S.job, i+1, st, fits>>, H |-> IF told /\ fits THEN tell ELSE S.H]

Command(d) ==
  /\ i >= 0
  /\ i < Len(Cmds(S))
  /\ TLCSet(21, 0) /\ TLCSet(22, Jobs[S.job].fuel)
  /\ LET c == CmdOf(Cmds(S)[i+1])
     IN IF IsEval(c)
        THEN /\ Say(IF c[2][1][2] = "?proves" THEN ProvesReport(c) ELSE EvalReport(c))
             /\ i' = i+1 /\ S' = S /\ last' = "eval"
        ELSE IF IsAsk(c)
        THEN LET r == Ask(c)
             IN /\ Say(r.say)
                /\ i' = i+1 /\ S' = [S EXCEPT !.H = r.H] /\ last' = "ask"
        ELSE LET r == Exec(S, c)
             IN /\ Say(<<"cmd", S.job, i+1, r.ok, r.at>>)
                /\ S' = r.S
                /\ i' = IF r.ctl = "exit" THEN Len(Cmds(S)) ELSE i+1
                /\ last' = IF r.ok THEN "ok" ELSE "rejected"
  /\ IF TLCGet(21) >= MaxFuel THEN Say(<<"fuel", S.job>>) ELSE TRUE
\* the statistics: the number of accepted steps of each rule used
Counts(s) == {<<s.tab[r].nm, s.cnt[r], r>> : r \in DOMAIN s.cnt}
Done(d) ==
  /\ i >= 0
  /\ i = Len(Cmds(S))
  /\ Say(<<"end", S.job, i, Answer(S), Job(S).main = "stdin" \/ Level(S) = 0, S.out,
           IF S.opt.stats THEN <<S.opt.stall, S.opt.stcompact, Counts(S)>> ELSE <<>>>>)
  /\ i' = i+1 /\ S' = S /\ last' = "end"

Next(d) == Begin(d) \/ Command(d) \/ Done(d)
Spec == Init /\ [][Next(0)]_<<i, S, last>>

=============================================================================
