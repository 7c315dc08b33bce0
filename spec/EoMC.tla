--------------------------------- MODULE EoMC ---------------------------------
(***************************************************************************)
(* All runs of the checker over a given alphabet of commands.              *)
(*                                                                         *)
(* A model (a job with further fields) fixes the files, the options and    *)
(* commands that are executed first, and then explores every sequence of   *)
(* at most `depth` accepted commands of `alpha`; in every state every      *)
(* command of the alphabet is tried.  Besides the state S of the checker   *)
(* a state has a record g, which describes the run by the commands alone,  *)
(* without the semantics:                                                  *)
(*   frames   the open scopes, each [asm, names]: opened by assume-push?,  *)
(*            and the names bound in it                                    *)
(*   sorry    a step with a rule marked :sorry was accepted                *)
(*            (hyps: the commands that assumed in it)                      *)
(*   assumed  the plain assumptions, which are never discharged            *)
(* The invariants relate the two.  Every transition is reported and        *)
(* replayed with the real checker.                                         *)
(*                                                                         *)
(* alpha[k] = [cmd, op, n, binds, sorry, ref]: the command, what it does   *)
(* (bind, assume, apush, steppop, push, pop, reset, exit, none) n times,   *)
(* the names it binds, whether it applies a sorry rule, and whether it is  *)
(* a formula of the reference.                                             *)
(***************************************************************************)
EXTENDS EoTrace

VARIABLES path, g
mcvars == <<i, S, last, path, g>>

Model(s) == Jobs[s.job]
Alpha(s) == Model(s).alpha
Setof(q) == {q[k] : k \in DOMAIN q}

\* --- the run as seen from the commands ---------------------------------------
Frame(asm, ns, hs) == [asm |-> asm, names |-> ns, hyps |-> hs]
G0 == [frames |-> <<Frame(FALSE, {}, {})>>, sorry |-> FALSE, assumed |-> {}]
BindIn(fs, ns, hs) == [fs EXCEPT ![Len(fs)].names = @ \cup ns, ![Len(fs)].hyps = @ \cup hs]
LastAsm(fs) == CHOOSE k \in DOMAIN fs : fs[k].asm /\ \A l \in DOMAIN fs : fs[l].asm => l <= k
RECURSIVE AddFrames(_,_)
AddFrames(fs, n) == IF n = 0 THEN fs ELSE AddFrames(Append(fs, Frame(FALSE, {}, {})), n-1)
Seen(gg, a, k) ==
  LET ns == Setof(a.binds)
      fs == gg.frames
      fs2 == CASE a.op = "bind" -> BindIn(fs, ns, {})
               [] a.op = "assume" -> BindIn(fs, ns, {k})
               [] a.op = "apush" -> Append(fs, Frame(TRUE, ns, {k}))
               [] a.op = "steppop" -> BindIn(SubSeq(fs, 1, LastAsm(fs) - 1), ns, {})
               [] a.op = "push" -> AddFrames(fs, a.n)
               [] a.op = "pop" ->   \* an assumption lasts until the local assumption around it is discharged
                    LET m == Len(fs) - a.n
                    IN BindIn(SubSeq(fs, 1, m), {}, UNION {fs[l].hyps : l \in m+1..Len(fs)})
               [] a.op = "reset" -> <<Frame(FALSE, {}, {})>>
               [] OTHER -> fs
  IN [frames |-> fs2, sorry |-> gg.sorry \/ a.sorry,
      assumed |-> IF a.op = "assume" THEN gg.assumed \cup {k} ELSE IF a.op = "reset" THEN {} ELSE gg.assumed]
Visibles(gg) == UNION {gg.frames[k].names : k \in DOMAIN gg.frames}
Hyps(gg) == UNION {gg.frames[k].hyps : k \in DOMAIN gg.frames}

\* whether the commands alone allow a pop, a step-pop, ...
CanDo(gg, a) ==
  CASE a.op = "pop" -> /\ Len(gg.frames) > a.n
                       /\ \A k \in DOMAIN gg.frames : k > Len(gg.frames) - a.n => ~gg.frames[k].asm
    [] a.op = "steppop" -> \E k \in DOMAIN gg.frames : gg.frames[k].asm
    [] OTHER -> TRUE

\* --- propositional consequence ----------------------------------------------
\* the truth value of f under the atoms in T; the constants are named not, and, or, =>
Nm(s, t) == s.tab[t[2]].nm
RECURSIVE Holds(_,_,_)
Holds(s, T, f) ==
  CASE f[1] = "TF" -> f[2]
    [] f[1] = "CONST" -> Nm(s, f) \in T
    [] f[1] = "APPLY" ->
         LET h == f[2][1]
             x == f[2][2]
         IN IF h[1] = "CONST" /\ Nm(s, h) = "not" THEN ~Holds(s, T, x)
            ELSE IF h[1] = "APPLY"
            THEN LET o == Nm(s, h[2][1])
                     y == h[2][2]
                 IN CASE o = "and" -> Holds(s, T, y) /\ Holds(s, T, x)
                      [] o = "or" -> Holds(s, T, y) \/ Holds(s, T, x)
                      [] o = "=>" -> Holds(s, T, y) => Holds(s, T, x)
            ELSE FALSE
    [] OTHER -> FALSE
Models(s) == SUBSET Setof(Model(s).atoms)

\* --- invariants ------------------------------------------------------------------
Running == i = 1
\* what is bound are exactly the names bound by commands in scopes still open
InvNames == Running => \A n \in Setof(Model(S).names) :
              ((n \in DOMAIN S.sym) <=> (n \in Visibles(g)))
\* the open scopes are the ones opened and not closed
InvScopes == Running => /\ Len(S.scopes) = Len(g.frames) - 1
                        /\ \A k \in DOMAIN S.scopes : S.scopes[k].asm = g.frames[k+1].asm
\* incomplete if and only if a sorry rule was used
InvSorry == Running => (S.sorry <=> g.sorry)
\* what is proved without sorry follows from the local assumptions
\* still open and the assumptions of the proof
InvSound ==
  (Running /\ Model(S).sound /\ ~S.sorry) =>
     \A n \in DOMAIN S.sym :
        LET t == Look(S, n)
        IN t[1] = "PF" =>
             \A T \in Models(S) :
                (\A k \in Hyps(g) \cup g.assumed : Holds(S, T, Elab(S, Alpha(S)[k].cmd[2][3]))) => Holds(S, T, t[2][1])
\* the assumptions in effect are the ones made in open scopes
InvAsms ==
  (Running /\ Model(S).plain) => Setof(S.asms) = {Elab(S, Alpha(S)[k].cmd[2][3]) : k \in Hyps(g)}

\* --- behaviours --------------------------------------------------------------------
MCInit == Init /\ path = <<>> /\ g = G0

StateReport(s, p) ==
  Say(<<"state", s.job, p, Answer(s), Job(s).main = "stdin" \/ Level(s) = 0, s.out,
        Tup([k \in DOMAIN Model(s).names |->
               LET t == Look(s, Model(s).names[k])
               IN IF t[1] = "PF" THEN Rend1(s, t[2][1]) ELSE <<"none">>])>>)

Prelude(d) ==
  /\ i = -1
  /\ TLCSet(21, 0) /\ TLCSet(22, 1000000)
  /\ LET st == Start(S.job)
         r == RunCmds(st.s, Cmds(S), 1, 1)
     IN /\ Assert(r.ok, <<"prelude of model", S.job, r.at>>)
        /\ S' = r.S
        /\ Say(<<"pre", S.job, st.pre, FALSE>>)
        /\ StateReport(r.S, <<>>)
  /\ i' = 1 /\ last' = "prelude" /\ path' = <<>> /\ g' = G0

Try(k) ==
  /\ i = 1
  /\ Len(path) < Model(S).depth
  /\ TLCSet(21, 0) /\ TLCSet(22, Model(S).fuel)
  /\ LET a == Alpha(S)[k]
         r == Exec(S, a.cmd)
         fuel == TLCGet(21) >= MaxFuel
     IN /\ Say(<<"try", S.job, path, k, r.ok, r.at, fuel>>)
        /\ ~fuel
        /\ Assert(r.ok => CanDo(g, a), <<"impossible", S.job, path, k>>)
        /\ IF r.ok
           THEN /\ S' = r.S /\ path' = Append(path, k) /\ g' = Seen(g, a, k) /\ last' = "ok"
                /\ i' = IF r.ctl = "exit" THEN 2 ELSE 1
                /\ StateReport(r.S, Append(path, k))
           ELSE UNCHANGED mcvars

MCNext(d) == Prelude(d) \/ \E k \in DOMAIN Alpha(S) : Try(k)
MCSpec == MCInit /\ [][MCNext(0)]_mcvars
View == <<i, S, g>>
=============================================================================
