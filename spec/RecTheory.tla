------------------------------ MODULE RecTheory -------------------------------
(* The parsing machine of Driver on every short text under every small        *)
(* grammar with error productions: a behaviour first chooses productions one  *)
(* by one, then a text, then parses it.                                       *)
EXTENDS Driver

CONSTANTS NT, NN, MaxProds, MaxLen, TextLen, Guards, Bound

Syms == (1..NT) \cup (101..(100 + NN)) \cup {Err}
Bodies(n) == {r \in UNION {[1..k -> Syms] : k \in 0..n} : \A i \in 1..Len(r) : r[i] = Err => i = Len(r)}
CodeOf(p) ==
    LET RECURSIVE Cd(_, _)
        Cd(k, c) == IF k > Len(p.r) THEN c
                    ELSE Cd(k + 1, c * 8 + (IF p.r[k] < 100 THEN p.r[k] ELSE IF p.r[k] = Err THEN 7 ELSE p.r[k] - 100 + 3))
    IN  Cd(1, ((p.l - 100) * 8 + Len(p.r)) * 2 + (IF p.pk = "none" THEN 1 ELSE 0))
AllProds == TLCEval({[l |-> l, r |-> r, pt |-> 0, pk |-> k, pa |-> IF k = "la" THEN <<1>> ELSE <<>>, act |-> 1, kind |-> "act", cp |-> 0]
             : l \in 101..(100 + NN), r \in Bodies(MaxLen), k \in {"none"} \cup Guards})
G(ps) == [nt |-> NT, nn |-> NN, prods |-> ps, lines |-> <<>>]

(* tokens are the letters a, b, ...; anything else is unexpected text          *)
L == [lits |-> [i \in 1..NT |-> [tag |-> i, s |-> <<96 + i>>]], regs |-> <<>>, skips |-> <<>>, end |-> End]
Texts == UNION {[1..k -> {96 + i : i \in 1..NT} \cup {63}] : k \in 0..TextLen}

VARIABLES ps, B, fit, run, text, m, ev, n, top   \* fit: the grammar is one to be run
vars == <<ps, B, fit, run, text, m, ev, n, top>>
view == <<ps, run, text, m, ev, n, top>>
Nothing == [e |-> "-"]

RECURSIVE ProdFix(_, _)
ProdFix(P, S) ==
    LET S2 == S \cup {P[i].l : i \in {j \in 1..Len(P) : \A k \in 1..Len(P[j].r) : IsTok(P[j].r[k]) \/ P[j].r[k] \in S}}
    IN  IF S2 = S THEN S ELSE ProdFix(P, S2)
Productive(P) == LET S == ProdFix(P, {}) IN \A i \in 1..Len(P) : \A k \in 1..Len(P[i].r) : IsTok(P[i].r[k]) \/ P[i].r[k] \in S

Init == ps = <<>> /\ B = 0 /\ fit = FALSE /\ run = FALSE /\ text = <<>> /\ m = 0 /\ ev = Nothing /\ n = 0 /\ top = 0
Conflicts(b) == b.nsr > 0 \/ b.nrr > 0 \/ \E s \in 1..b.n : b.R[s].srt \cup b.R[s].rrt # {}
AddProd ==
    /\ ~run /\ Len(ps) < MaxProds
    /\ \E p \in AllProds :
          /\ IF ps = <<>> THEN p.l = 101 ELSE CodeOf(p) > CodeOf(ps[Len(ps)])
          /\ ps' = Append(ps, p)
    /\ fit' = LET g == G(ps') IN UsesErr(g) /\ Productive(Prods(g))
    /\ B' = IF fit' THEN Build(G(ps')) ELSE 0
    /\ UNCHANGED <<run, text, m, ev, n, top>>
(* without conflicts: with some, even resolved ones, a cyclic grammar can go   *)
(* round in circles                                                            *)
Choose ==
    /\ ~run /\ fit /\ ~Conflicts(B)
    /\ run' = TRUE
    /\ \E t \in Texts : text' = t /\ m' = Start0(L, t, "", <<>>)
    /\ UNCHANGED <<ps, B, fit, ev, n, top>>
Step ==
    /\ run /\ m.ph # "done"
    /\ LET x == Move(G(ps), B, L, m)
       IN  /\ m' = x.m /\ ev' = x.ev
           /\ top' = IF x.ev.e = "rep" THEN Len(m.st) ELSE top
    /\ n' = n + 1
    /\ UNCHANGED <<ps, B, fit, run, text>>
Next == AddProd \/ Choose \/ Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Running == run
(* every parse ends, whatever the text                                        *)
Ends_ == n < Bound
(* the stack always spells a path through the automaton, one attribute per    *)
(* symbol                                                                      *)
StackSound == Running =>
    /\ Len(m.st) = Len(m.at) + 1 /\ m.st[1] = 1
    /\ \A i \in 2..Len(m.st) : \E X \in DOMAIN B.T[m.st[i - 1]] : B.T[m.st[i - 1]][X] = m.st[i]
(* success is reported exactly when nothing else was, and then the text is a   *)
(* sentence (the error symbol standing for nothing); otherwise the result is   *)
(* the last error                                                              *)
Lex == [i \in 1..Len(text) |-> text[i] - 96]
Verdict == (Running /\ m.ph = "done") =>
    /\ ev.e = "z"
    /\ ev.ok = (m.res = <<>>)
    /\ ~ev.ok => ev.w = m.res[1]
    /\ (Guards = {} /\ ev.ok) => Lex \in Language(G(ps), TextLen)
(* a sentence is never complained about                                        *)
NoFalseAlarm == (Running /\ Guards = {} /\ ev.e = "rep") => Lex \notin Language(G(ps), TextLen)
(* what is expected is never what was found                                    *)
Honest == (Running /\ Guards = {} /\ ev.e = "rep" /\ ev.w.k = "tok") => TokOf(ev.w) \notin ev.w.exp
(* after a recovery the error symbol is on top and can be accepted before the  *)
(* current token                                                               *)
Recovered == (Running /\ ev.e = "e") =>
    /\ \E i \in 2..Len(m.st) : i = Len(m.st) /\ m.st[i] = ErrGoto(B, m.st[i - 1])
    /\ LET c == Cur(L, m.S) IN c.k = "tok" /\ m.st[Len(m.st) - 1] \in Viable(B, TokOf(c))
    /\ Len(m.st) - 1 <= top
(* the places at which something happens never go back                         *)
OnlyForward == [][(Running /\ Len(m.S.stack) = 1 /\ Len(m'.S.stack) = 1) => m'.S.stack[1].from >= m.S.stack[1].from]_vars
(* after giving up nothing is left to try: the text has been read to its end   *)
GivesUpAtEnd == (Running /\ m.ph = "done" /\ ev.e = "z" /\ ~ev.ok /\ Len(m.st) > 0) => m.S.phase # "read"
=============================================================================
