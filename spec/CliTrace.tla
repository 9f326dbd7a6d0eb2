------------------------------ MODULE CliTrace ------------------------------
(* Histories of the real programs and the real library, step by step, against *)
(* Cli.  The conflicts of sound specifications are those of the automaton     *)
(* that Lalr builds of their grammars.                                        *)
EXTENDS Lalr, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
GS == Input.gs
Cases == Input.cases
KIn == Input.K
ASSUME \A g \in 1..Len(GS) : TLCSet(10 + g, TLCEval([nsr |-> Build(GS[g]).nsr, nrr |-> Build(GS[g]).nrr]))
Full(k) == IF k.cls # "sound" THEN k ELSE k @@ TLCGet(10 + k.g)
KTab == TLCEval([c \in 1..Len(KIn) |-> [l |-> Full(KIn[c].l), a |-> Full(KIn[c].a)]])

Model == INSTANCE Cli
Dirs == Rng(Input.dirs)

VARIABLES ci, x
vars == <<ci, x>>
C == Cases[ci]
PathOf(t) == [d |-> t[1], s |-> t[2], e |-> t[3]]
FsOf(l) == LET ps == {PathOf(l[i][1]) : i \in 1..Len(l)}
           IN  [p \in ps |-> LET i == CHOOSE j \in 1..Len(l) : PathOf(l[j][1]) = p IN l[i][2]]
OutArg(o) == IF o = <<>> THEN <<>> ELSE PathOf(o)

Blame(p, what, o) == PrintT(<<"BLAME", p, C.id, x.at, what, o>>)
BlameIf(b, p, what, o) == IF b THEN Blame(p, what, o) ELSE TRUE

Changed(a, b) == {p \in DOMAIN a \cup DOMAIN b : p \notin DOMAIN a \/ p \notin DOMAIN b \/ a[p] # b[p]}

Step ==
    LET op == C.ops[x.at]
        ob == C.obs[x.at]
        after == FsOf(ob.fs)
    IN  CASE op.o = "set" ->          \* others make changes between runs
             x' = [x EXCEPT !.at = @ + 1, !.fs = after]
        [] op.o = "run" ->
             LET r == [l |-> op.l, force |-> op.force, isr |-> op.isr, irr |-> op.irr, out |-> OutArg(op.out),
                       spec |-> PathOf(op.spec), use |-> op.use]
                 w == Model!Run(KTab, Dirs, x.fs, r)
             IN  /\ BlameIf(ob.code # w.code, "C21", "exit status", <<w, ob>>)
                 /\ BlameIf(after # w.fs, "C21", "files", <<w.why, Changed(w.fs, after), ob.code>>)
                 /\ BlameIf(ob.code # 0 /\ ob.code = w.code /\ ~ob.said, "C21", "fails without a word", <<w.why, ob.code>>)
                 /\ BlameIf(ob.code = w.code /\ w.names # {} /\ w.names \cap {PathOf(n) : n \in Rng(ob.names)} = {}, "C21", "does not name the file", <<w.why, w.names, ob>>)
                 /\ BlameIf(w.why[1] \in {"sr", "rr"} /\ ob.code = 4 /\ ob.why # w.why, "C21", "message", <<w.why, ob>>)
                 /\ x' = [x EXCEPT !.at = @ + 1, !.fs = after]
        [] op.o = "lib" ->
             LET r == [l |-> op.l, how |-> op.how, spec |-> PathOf(op.spec), c |-> op.c, out |-> PathOf(op.out)]
                 w == Model!Lib(KTab, Dirs, x.fs, r)
                 kind == IF w.r[1] = "junk" THEN "unreadable" ELSE w.r[1]
             IN  /\ BlameIf(ob.r # <<kind, w.r[2], w.r[3]>>, "C25", "outcome", <<w.r, ob>>)
                 /\ BlameIf(after # w.fs, "C25", "files", <<w.r, Changed(w.fs, after), ob>>)
                 /\ x' = [x EXCEPT !.at = @ + 1, !.fs = after]

Init == /\ ci \in 1..Len(Cases)
        /\ x = [at |-> 1, fs |-> FsOf(C.fs)]
Finished == x.at > Len(C.ops)
Next == ~Finished /\ ci' = ci /\ Step
Count == Finished => TLCSet(1, TLCGet(1) + 1)
Post == PrintT(<<"CASES", TLCGet(1), Len(Cases)>>)
ASSUME TLCSet(1, 0)
=============================================================================
