-------------------------------- MODULE Lalr --------------------------------
(* The LALR(1) automaton of a grammar (see Cfg), the resolution of conflicts  *)
(* and the tables a parser works with.                                        *)
EXTENDS Cfg

Rng(s) == {s[i] : i \in 1..Len(s)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE SortedAcc(_, _)
SortedAcc(S, acc) == IF S = {} THEN acc ELSE LET m == MinOf(S) IN SortedAcc(S \ {m}, Append(acc, m))
Sorted(S) == SortedAcc(S, <<>>)

(* items: production p (1-based) with the dot before r[d+1]                   *)
It(p, d) == 32 * p + d
PofI(it) == it \div 32
DofI(it) == it % 32
NextSym(P, it) == IF DofI(it) < Len(P[PofI(it)].r) THEN P[PofI(it)].r[DofI(it) + 1] ELSE -1
Complete(P, it) == DofI(it) >= Len(P[PofI(it)].r)
IsKernel(P, it) == DofI(it) > 0 \/ P[PofI(it)].l = Start

-----------------------------------------------------------------------------
(* LR(0)                                                                      *)
RECURSIVE Close(_, _, _)
Close(P, S, new) ==
    IF new = {} THEN S
    ELSE LET nts == {NextSym(P, it) : it \in new}
             add == {It(p, 0) : p \in {q \in 1..Len(P) : P[q].l \in nts}} \ S
         IN  Close(P, S \cup add, add)
Closure0(P, K) == Close(P, K, K)

GotoKernel(P, I, X) == {it + 1 : it \in {i \in I : NextSym(P, i) = X}}

(* ks: kernels found, tr: goto functions of the states done                   *)
RECURSIVE Targets(_, _, _, _, _)
Targets(P, I, todo, ks, f) ==
    IF todo = {} THEN [ks |-> ks, f |-> f]
    ELSE LET X == MinOf(todo)
             K == GotoKernel(P, I, X)
             old == {j \in 1..Len(ks) : ks[j] = K}
         IN  IF old # {} THEN Targets(P, I, todo \ {X}, ks, TLCEval((X :> MinOf(old)) @@ f))
             ELSE Targets(P, I, todo \ {X}, Append(ks, K), TLCEval((X :> (Len(ks) + 1)) @@ f))

RECURSIVE Explore(_, _, _, _)
Explore(P, ks, is, tr) ==
    IF Len(tr) = Len(ks) THEN [K |-> ks, I |-> is, T |-> tr]
    ELSE LET I == TLCEval(Closure0(P, ks[Len(tr) + 1]))
             t == TLCEval(Targets(P, I, {NextSym(P, it) : it \in I} \ {-1}, ks, <<>>))
         IN  Explore(P, t.ks, Append(is, I), Append(tr, t.f))

Lr0(G) == LET P == TLCEval(Prods(G)) IN Explore(P, <<{It(1, 0)}>>, <<>>, <<>>)

-----------------------------------------------------------------------------
(* Look-aheads: the least solution of                                         *)
(*   end marker in LA(1, start item)                                          *)
(*   LA(s, A -> a.Xb) in LA(goto(s,X), A -> aX.b)                             *)
(*   FIRST(b), and LA(s, A -> a.Bb) if b is nullable, in LA(s, B -> .c)       *)
LaConst(P, F, N, A, s, it) ==
    IF DofI(it) > 0 THEN {}
    ELSE IF P[PofI(it)].l = Start THEN {End}
    ELSE UNION {FirstOf(F, N, P[PofI(j)].r, DofI(j) + 2) : j \in {i \in A.I[s] : NextSym(P, i) = P[PofI(it)].l}}
LaPred(P, N, A, s, it) ==
    IF DofI(it) > 0
    THEN {<<q, it - 1>> : q \in {r \in 1..Len(A.K) : (it - 1) \in A.I[r] /\ A.T[r][NextSym(P, it - 1)] = s}}
    ELSE {<<s, j>> : j \in {i \in A.I[s] : NextSym(P, i) = P[PofI(it)].l /\ NullSeq(N, P[PofI(i)].r, DofI(i) + 2)}}

RECURSIVE LaState(_, _, _, _)
LaState(la, pre, s, n) ==       \* one sweep, state by state
    IF s > n THEN la
    ELSE LaState(TLCEval([la EXCEPT ![s] = TLCEval([it \in DOMAIN la[s] |->
                    la[s][it] \cup UNION {la[q[1]][q[2]] : q \in pre[s][it]}])]), pre, s + 1, n)
RECURSIVE LaFix(_, _)
LaFix(la, pre) ==
    LET l2 == LaState(la, pre, 1, Len(la)) IN IF l2 = la THEN la ELSE LaFix(l2, pre)

LookAheads(G, A) ==
    LET P == TLCEval(Prods(G))
        N == TLCEval(NullableOf(P))
        F == TLCEval(FirstSets(G))
        c == TLCEval([s \in 1..Len(A.K) |-> TLCEval([it \in A.I[s] |-> LaConst(P, F, N, A, s, it)])])
        p == TLCEval([s \in 1..Len(A.K) |-> TLCEval([it \in A.I[s] |-> LaPred(P, N, A, s, it)])])
    IN  LaFix(c, p)

-----------------------------------------------------------------------------
(* Precedence: later lines bind tighter; unlisted symbols have level 0.       *)
LineOf(G, x) == LET S == {i \in 1..Len(G.lines) : x \in Rng(G.lines[i].s)} IN IF S = {} THEN 0 ELSE MaxOf(S)
AssocOf(G, x) == LET n == LineOf(G, x) IN IF n = 0 THEN "N" ELSE G.lines[n].a
FirstTok(r) == LET S == {i \in 1..Len(r) : IsTok(r[i])} IN IF S = {} THEN -1 ELSE r[MinOf(S)]
ProdSym(p) == IF p.pt # 0 THEN p.pt ELSE FirstTok(p.r)
ProdLevel(G, p) == LET x == ProdSym(p) IN IF x = -1 THEN 0 ELSE LineOf(G, x)
ProdAssoc(G, p) == LET x == ProdSym(p) IN IF x = -1 THEN "N" ELSE AssocOf(G, x)
ErrTail(p) == Len(p.r) > 0 /\ p.r[Len(p.r)] = Err

(* shift/reduce: token t against production p                                 *)
SRVerdict(G, p, t) ==
    LET lt == LineOf(G, t)  lp == ProdLevel(G, p)
    IN  IF lt < lp THEN "reduce"
        ELSE IF lt > lp THEN "shift"
        ELSE IF ProdAssoc(G, p) = "L" THEN "reduce"
        ELSE IF ErrTail(p) THEN "shift"
        ELSE "default"                     \* shift, counted as a conflict

(* reduce/reduce within one state: la is a function from the complete         *)
(* productions to their look-aheads; pairs are taken in order of declaration  *)
(* n: the pairs for which this takes away what precedences did not settle     *)
RECURSIVE RRPairs(_, _, _, _)
RRPairs(P, prs, la, n) ==
    IF prs = <<>> THEN [la |-> la, n |-> n]
    ELSE LET a == prs[1][1]  b == prs[1][2]
             x == la[a] \cap la[b]
             rest == Tail(prs)
         IN  IF x = {} \/ P[a].pk # "none" THEN RRPairs(P, rest, la, n)
             ELSE IF ErrTail(P[a]) THEN RRPairs(P, rest, TLCEval([la EXCEPT ![a] = @ \ x]), n)
             ELSE IF ErrTail(P[b]) THEN RRPairs(P, rest, TLCEval([la EXCEPT ![b] = @ \ x]), n)
             ELSE RRPairs(P, rest, TLCEval([la EXCEPT ![b] = @ \ x]), n \cup {<<a, b, x>>})
PairsOf(ps) ==
    LET RECURSIVE Prs(_, _)
        Prs(i, j) == IF i >= Len(ps) THEN <<>>
                     ELSE IF j > Len(ps) THEN Prs(i + 1, i + 2)
                     ELSE <<<<ps[i], ps[j]>>>> \o Prs(i, j + 1)
    IN  Prs(1, 2)

(* Resolution of one state: its shifts, its reductions and what was left to   *)
(* the default rules                                                          *)
Resolve(G, P, T, la) ==
    LET ps == {PofI(it) : it \in {i \in DOMAIN la : Complete(P, i)}}
        L0 == TLCEval([p \in ps |-> la[It(p, Len(P[p].r))]])
        sh == {x \in DOMAIN T : IsTok(x)}
        raw == {<<t, p>> : t \in sh, p \in ps}
        cf == {c \in raw : c[1] \in L0[c[2]]}
        sh2 == {t \in sh : ~\E p \in ps : t \in L0[p] /\ SRVerdict(G, P[p], t) = "reduce"}
        L1 == TLCEval([p \in ps |-> {t \in L0[p] : t \notin sh \/ SRVerdict(G, P[p], t) = "reduce"}])
        rr == RRPairs(P, PairsOf(Sorted(ps)), L1, {})
    IN  [sh  |-> sh2,
         la  |-> rr.la,
         dsr |-> {c \in cf : SRVerdict(G, P[c[2]], c[1]) = "default"},      \* conflicts left to the default rules
         drr |-> rr.n,
         srt |-> {c[1] : c \in cf},                         \* tokens with a shift/reduce conflict
         rrt |-> {t \in Toks(G) : \E a, b \in ps : a # b /\ t \in L1[a] \cap L1[b]}]

RECURSIVE SumOf(_, _)
SumOf(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumOf(f, k - 1)

(* The parser: everything a run or a report shows.                            *)
(*  n states; T transitions; R[s] as from Resolve; la0 look-aheads before     *)
(*  resolution.  Symbols that derive no text are no exception: items may have *)
(*  no look-ahead at all.                                                     *)
Build(G) ==
    LET P == TLCEval(Prods(G))
        A == TLCEval(Lr0(G))
        la == TLCEval(LookAheads(G, A))
        R == TLCEval([s \in 1..Len(A.K) |-> TLCEval(Resolve(G, P, A.T[s], la[s]))])
    IN  [P |-> P, n |-> Len(A.K), K |-> A.K, I |-> A.I, T |-> A.T, la0 |-> la, R |-> R,
         nsr |-> SumOf([s \in 1..Len(A.K) |-> Cardinality(R[s].dsr)], Len(A.K)),
         nrr |-> SumOf([s \in 1..Len(A.K) |-> Cardinality(R[s].drr)], Len(A.K))]

-----------------------------------------------------------------------------
(* What the tables say                                                        *)
Reds(B, s, t) == {p \in DOMAIN B.R[s].la : t \in B.R[s].la[p]}
Expected(B, s) == B.R[s].sh \cup UNION {B.R[s].la[p] : p \in DOMAIN B.R[s].la}
(* the guarded productions to be tried in order, then the unguarded one       *)
Chain(B, s, t) == Sorted({p \in Reds(B, s, t) : B.P[p].pk # "none"})
Fallback(B, s, t) == LET S == {p \in Reds(B, s, t) : B.P[p].pk = "none"} IN IF S = {} THEN 0 ELSE MinOf(S)
ErrGoto(B, s) == IF Err \in DOMAIN B.T[s] THEN B.T[s][Err] ELSE 0
(* states in which the error symbol can be accepted before token t            *)
Viable(B, t) ==
    {s \in 1..B.n : ErrGoto(B, s) # 0 /\
        LET r == B.R[ErrGoto(B, s)] IN \E p \in DOMAIN r.la : ErrTail(B.P[p]) /\ t \in r.la[p]}
=============================================================================
