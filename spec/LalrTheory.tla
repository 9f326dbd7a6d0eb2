------------------------------ MODULE LalrTheory ------------------------------
(* What Lalr promises about grammars, checked for every grammar over a small  *)
(* alphabet.  A behaviour adds productions one by one (in increasing order:   *)
(* without conflicts their order does not matter), so that the states are the *)
(* grammars and every state is checked.                                       *)
EXTENDS Lalr

CONSTANTS NT, NN, MaxProds, MaxLen, WordLen, WithErr

Syms == (1..NT) \cup (101..(100 + NN)) \cup (IF WithErr THEN {Err} ELSE {})
(* the error symbol is only of use at the end of a production *)
Bodies(n) == {r \in UNION {[1..k -> Syms] : k \in 0..n} : \A i \in 1..Len(r) : r[i] = Err => i = Len(r)}
CodeOf(l, r) ==
    LET RECURSIVE Cd(_, _)
        Cd(k, c) == IF k > Len(r) THEN c
                    ELSE Cd(k + 1, c * 16 + (IF r[k] < 100 THEN r[k] ELSE IF r[k] = Err THEN 15 ELSE r[k] - 100 + 8))
    IN  Cd(1, (l - 100) * 16 + Len(r))
AllProds == {[l |-> l, r |-> r, pt |-> 0, pk |-> "none"] : l \in 101..(100 + NN), r \in Bodies(MaxLen)}

Grammar(ps) == [nt |-> NT, nn |-> NN, prods |-> ps, lines |-> <<>>]

VARIABLE ps
Init == ps = <<>>
(* the first production decides the start symbol, 101 without loss of generality *)
Next == /\ Len(ps) < MaxProds
        /\ \E p \in AllProds :
              /\ IF ps = <<>> THEN p.l = 101 ELSE CodeOf(p.l, p.r) > CodeOf(ps[Len(ps)].l, ps[Len(ps)].r)
              /\ ps' = Append(ps, p)
Spec == Init /\ [][Next]_ps

-----------------------------------------------------------------------------
(* symbols that derive a text; every symbol used does *)
RECURSIVE ProdFix(_, _)
ProdFix(P, S) ==
    LET S2 == S \cup {P[i].l : i \in {j \in 1..Len(P) : \A k \in 1..Len(P[j].r) : IsTok(P[j].r[k]) \/ P[j].r[k] \in S}}
    IN  IF S2 = S THEN S ELSE ProdFix(P, S2)
Productive(P) == LET S == ProdFix(P, {}) IN \A i \in 1..Len(P) : P[i].l \in S /\ \A k \in 1..Len(P[i].r) : IsTok(P[i].r[k]) \/ P[i].r[k] \in S

(* the textbook's canonical collection of sets of LR(1) items <<item, token>>  *)
RECURSIVE Close1(_, _, _, _, _)
Close1(P, F, N, S, new) ==
    IF new = {} THEN S
    ELSE LET add == UNION {LET it == x[1]  B == NextSym(P, it)
                               la == FirstOf(F, N, P[PofI(it)].r, DofI(it) + 2)
                                     \cup (IF NullSeq(N, P[PofI(it)].r, DofI(it) + 2) THEN {x[2]} ELSE {})
                           IN  {<<It(p, 0), t>> : p \in {q \in 1..Len(P) : P[q].l = B}, t \in la}
                           : x \in {y \in new : NextSym(P, y[1]) > 99}} \ S
         IN  Close1(P, F, N, S \cup add, add)
Goto1(P, F, N, I, X) ==
    LET K == {<<x[1] + 1, x[2]>> : x \in {y \in I : NextSym(P, y[1]) = X}} IN Close1(P, F, N, K, K)
RECURSIVE Canon(_, _, _, _, _)
Canon(P, F, N, C, new) ==
    IF new = {} THEN C
    ELSE LET add == UNION {{Goto1(P, F, N, I, X) : X \in {NextSym(P, y[1]) : y \in I} \ {-1}} : I \in new} \ C
         IN  Canon(P, F, N, C \cup add, add)
Canonical(G) ==
    LET P == Prods(G)  N == NullableOf(P)  F == FirstSets(G)
        I0 == Close1(P, F, N, {<<It(1, 0), End>>}, {<<It(1, 0), End>>})
    IN  Canon(P, F, N, {I0}, {I0})
Core(I) == {x[1] : x \in I}
(* merged by core: pairs of a core and all its <<item, token>> *)
Merged(C) == {<<Core(I), UNION {J \in C : Core(J) = Core(I)}>> : I \in C}
OfLalr(B) == {<<B.I[s], UNION {{<<it, t>> : t \in B.la0[s][it]} : it \in B.I[s]}>> : s \in 1..B.n}

-----------------------------------------------------------------------------
(* running the tables on a sequence of tokens: how it ends and how many        *)
(* tokens were shifted; bounded by a number of steps                           *)
RECURSIVE Run(_, _, _, _, _)
Run(B, w, st, i, k) ==
    IF k = 0 THEN [end |-> "loop", at |-> i]
    ELSE LET s == st[Len(st)]
             t == IF i > Len(w) THEN End ELSE w[i]
             p == Fallback(B, s, t)
         IN  IF t \in B.R[s].sh THEN Run(B, w, Append(st, B.T[s][t]), i + 1, k - 1)
             ELSE IF p = 0 THEN [end |-> "error", at |-> i]
             ELSE IF p = 1 THEN [end |-> "accept", at |-> i]
             ELSE LET b == SubSeq(st, 1, Len(st) - Len(B.P[p].r))
                      q == b[Len(b)]
                  IN  IF B.P[p].l \notin DOMAIN B.T[q] THEN [end |-> "lost", at |-> i]
                      ELSE Run(B, w, Append(b, B.T[q][B.P[p].l]), i, k - 1)
Words == UNION {[1..k -> 1..NT] : k \in 0..WordLen}
Bound == 200

(* prefixes (of at most n tokens) of the sentences of a productive grammar     *)
RECURSIVE SeqPre(_, _, _, _, _)
SeqPre(L, Q, r, k, n) ==
    IF k > Len(r) THEN {<<>>}
    ELSE LET A == IF IsTok(r[k]) THEN {<<r[k]>>} ELSE L[r[k]]
             pre == IF IsTok(r[k]) THEN {<<>>, <<r[k]>>} ELSE Q[r[k]]
             B == SeqPre(L, Q, r, k + 1, n)
         IN  pre \cup UNION {{a \o b : b \in {c \in B : Len(c) + Len(a) <= n}} : a \in A}
RECURSIVE PreFix(_, _, _, _)
PreFix(P, L, Q, n) ==
    LET Q2 == TLCEval([x \in DOMAIN Q |->
                 Q[x] \cup UNION {Short(SeqPre(L, Q, P[i].r, 1, n), n) : i \in {j \in 1..Len(P) : P[j].l = x}}])
    IN  IF Q2 = Q THEN Q ELSE PreFix(P, L, Q2, n)
Prefixes(G, n) ==
    LET P == Prods(G)
        L == LangFix(P, [x \in NonTerms(G) |-> {}], n)
    IN  PreFix(P, L, [x \in NonTerms(G) |-> {<<>>}], n)[Start]

-----------------------------------------------------------------------------
(* 1: the automaton is the canonical one merged (so that it is that of the     *)
(*    textbooks), for grammars without useless symbols                         *)
(* 2: without conflicts the tables accept exactly the language, always come    *)
(*    to an end, and detect an error at the first token that does not continue *)
(*    any sentence                                                             *)
(* 3: a conflict-free grammar is unambiguous at least in this sense: no two    *)
(*    productions or shifts apply at once (determinism of the tables)          *)
Theory ==
    ps # <<>> =>
    LET G == Grammar(ps)  P == Prods(G)
    IN  Productive(P) =>
        LET B == TLCEval(Build(G))
        IN  /\ OfLalr(B) = Merged(Canonical(G))
            /\ (B.nsr = 0 /\ B.nrr = 0 /\ ~UsesErr(G)) =>
                  LET L == TLCEval(Language(G, WordLen))
                      Q == TLCEval(Prefixes(G, WordLen))
                  IN  \A w \in Words :
                        LET r == Run(B, w, <<1>>, 1, Bound)
                        IN  /\ r.end \in {"accept", "error"}
                            /\ (r.end = "accept") = (w \in L)
                            /\ r.end = "error" =>
                                  /\ SubSeq(w, 1, r.at - 1) \in Q
                                  /\ r.at <= Len(w) => SubSeq(w, 1, r.at) \notin Q
            /\ \A s \in 1..B.n : \A t \in Toks(G) :
                  Cardinality(Reds(B, s, t)) + (IF t \in B.R[s].sh THEN 1 ELSE 0) <= 1
=============================================================================
