------------------------------- MODULE CliMC --------------------------------
(* Every history of runs and of changes made by others over a few paths and   *)
(* contents, against what is promised of the programs (stated without         *)
(* reference to how Cli says it is done).                                     *)
EXTENDS Cli, TLC

CONSTANTS Deep           \* more contents
P(s, e) == [d |-> "", s |-> s, e |-> e]
Paths == {P("a", "laps"), P("a", "rs"), P("a", "states"), P("b", "rs"), P("b", "states")}
Sound(n, d, m, e, c) == [cls |-> "sound", nsr |-> n, dsr |-> d, nrr |-> m, drr |-> e, code |-> c, rep |-> c + 1]
Bad(c) == [cls |-> c]
(* 1 sound, 2 conflicts not as declared, 3 a fault, 4 5 6 7 made, 8 no text   *)
K == <<[l |-> Sound(0, 0, 0, 0, 4)], [l |-> Sound(1, 0, 1, 0, 6)], [l |-> Bad("errors")],
       [l |-> Bad("syntax")], [l |-> Bad("syntax")], [l |-> Bad("syntax")], [l |-> Bad("syntax")], [l |-> Bad("junk")]>>
Contents == {1, 2, 3, DirC} \cup (IF Deep THEN {8, FullC} ELSE {})
Dirs == {""}

VARIABLES fs, op, res
vars == <<fs, op, res>>

Init == fs = <<>> /\ op = [o |-> "none"] /\ res = [code |-> 0, why |-> <<"none", 0, 0>>]
Others == \E p \in Paths :
            /\ \/ \E c \in Contents : (p \in DOMAIN fs => fs[p] # c) /\ fs' = Put(fs, p, c)
               \/ p \in DOMAIN fs /\ fs' = Drop(fs, p)
            /\ op' = [o |-> "others"] /\ res' = [code |-> 0, why |-> <<"none", 0, 0>>]
Program == \E f, i, j \in BOOLEAN, out \in {None} \cup Paths, spec \in {p \in Paths : p.e # "states"}, u \in {"", "bad"} :
            LET r == [l |-> "l", force |-> f, isr |-> i, irr |-> j, out |-> out, spec |-> spec, use |-> u]
                x == Run(K, Dirs, fs, r)
            IN  fs' = x.fs /\ op' = [o |-> "run", r |-> r] /\ res' = [code |-> x.code, why |-> x.why]
Next == Others \/ Program
View == <<fs>>

ran == op'.o = "run"
was(p) == IF p \in DOMAIN fs THEN fs[p] ELSE 0
is(p) == IF p \in DOMAIN fs' THEN fs'[p] ELSE 0
All == DOMAIN fs \cup DOMAIN fs'
(* nothing there is overwritten unless forced                                 *)
NoClobber == [][ran /\ ~op'.r.force => \A p \in DOMAIN fs : is(p) = was(p)]_vars
(* nothing but the output and its report ever changes, and nothing disappears *)
OnlyOutputs == [][ran => /\ DOMAIN fs \subseteq DOMAIN fs'
                         /\ \A p \in All : is(p) # was(p) => p \in {OutOf(op'.r), RepOf(op'.r)}]_vars
(* success exactly when both were written, each to a place of its own         *)
Faithful == [][ran /\ op'.r.use = "" =>
                 (res'.code = 0 <=>
                    \E c \in DOMAIN K : K[c].l.cls = "sound" /\ was(op'.r.spec) = c /\ res'.why[1] = "ok"
                                        /\ is(OutOf(op'.r)) = K[c].l.code /\ is(RepOf(op'.r)) = K[c].l.rep)]_vars
(* refused or faulty: everything stays as it is                               *)
NoTrace == [][ran /\ res'.code \in {1, 2, 4} => fs' = fs]_vars
(* ignoring conflicts of one kind has nothing to do with the other, nor with  *)
(* any other reason to fail                                                   *)
Independent ==
    \A f, i, j \in BOOLEAN, out \in {None} \cup Paths, spec \in {p \in Paths : p.e # "states"} :
        LET r(a, b) == Run(K, Dirs, fs, [l |-> "l", force |-> f, isr |-> a, irr |-> b, out |-> out, spec |-> spec, use |-> ""])
        IN  /\ r(i, j).code = 0 => r(TRUE, TRUE).fs = r(i, j).fs /\ r(TRUE, TRUE).code = 0
            /\ r(i, j).why[1] = "sr" => ~i
            /\ r(i, j).why[1] = "rr" => ~j
            /\ r(TRUE, TRUE).why[1] \notin {"ok", "write"} => r(i, j) = r(TRUE, TRUE)
(* running the same again, forced, changes nothing more                       *)
Again == [][ran /\ res'.code = 0 /\ op'.r.use = "" /\ op'.r.spec \notin {OutOf(op'.r), RepOf(op'.r)} =>
              LET x == Run(K, Dirs, fs', [op'.r EXCEPT !.force = TRUE]) IN x.code = 0 /\ x.fs = fs']_vars
=============================================================================
