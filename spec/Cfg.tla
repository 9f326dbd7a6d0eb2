-------------------------------- MODULE Cfg --------------------------------
(* Grammars and what they derive, without any notion of a parser.             *)
(* A grammar G is a record                                                    *)
(*   nt     tokens are 1..nt and the end marker is 0                          *)
(*   nn     non-terminals are 101..100+nn; 100 is the start symbol added to   *)
(*          every grammar and 200 the error symbol (%error)                   *)
(*   prods  << [l, r, pt, pk, ...] >> productions in order of declaration     *)
(*          pt: symbol named by %prec (0: none); pk: kind of predicate        *)
(*   lines  << [a, s] >> precedence lines: associativity and symbols (tokens  *)
(*          or tags 301..)                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

End == 0
Start == 100
Err == 200
IsTok(x) == x < 100

UsesErr(G) == \E i \in 1..Len(G.prods) : \E k \in 1..Len(G.prods[i].r) : G.prods[i].r[k] = Err

(* All productions: the start production, those declared and (last, so that   *)
(* it has the lowest claim in conflicts) the empty one of the error symbol.   *)
Prods(G) ==
    <<[l |-> Start, r |-> <<G.prods[1].l>>, pt |-> 0, pk |-> "none"]>>
    \o [i \in 1..Len(G.prods) |-> [l |-> G.prods[i].l, r |-> G.prods[i].r, pt |-> G.prods[i].pt, pk |-> G.prods[i].pk]]
    \o (IF UsesErr(G) THEN <<[l |-> Err, r |-> <<>>, pt |-> 0, pk |-> "none"]>> ELSE <<>>)

NonTerms(G) == {Start} \cup (101..(100 + G.nn)) \cup (IF UsesErr(G) THEN {Err} ELSE {})
Toks(G) == 0..G.nt

RECURSIVE NullFix(_, _)
NullFix(P, S) ==
    LET S2 == S \cup {P[i].l : i \in {j \in 1..Len(P) : \A k \in 1..Len(P[j].r) : P[j].r[k] \in S}}
    IN  IF S2 = S THEN S ELSE NullFix(P, S2)
NullableOf(P) == NullFix(P, {})

(* FIRST of a sequence given FIRST and nullability of the non-terminals       *)
RECURSIVE FirstOf(_, _, _, _)
FirstOf(F, N, r, k) ==
    IF k > Len(r) THEN {}
    ELSE IF IsTok(r[k]) THEN {r[k]}
    ELSE F[r[k]] \cup (IF r[k] \in N THEN FirstOf(F, N, r, k + 1) ELSE {})
NullSeq(N, r, k) == \A j \in k..Len(r) : r[j] \in N

RECURSIVE FirstFix(_, _, _)
FirstFix(P, N, F) ==
    LET F2 == TLCEval([x \in DOMAIN F |-> F[x] \cup UNION {FirstOf(F, N, P[i].r, 1) : i \in {j \in 1..Len(P) : P[j].l = x}}])
    IN  IF F2 = F THEN F ELSE FirstFix(P, N, F2)
FirstSets(G) == LET P == Prods(G) IN FirstFix(P, NullableOf(P), [x \in NonTerms(G) |-> {}])

-----------------------------------------------------------------------------
(* The sentences of at most n tokens derivable from each non-terminal (least  *)
(* fixpoint of the grammar read as equations).                                *)
Conc(A, B, n) == {a \o b : a \in A, b \in B}
Short(S, n) == {w \in S : Len(w) <= n}
RECURSIVE SeqLang(_, _, _, _)
SeqLang(L, r, k, n) ==
    IF k > Len(r) THEN {<<>>}
    ELSE LET A == IF IsTok(r[k]) THEN {<<r[k]>>} ELSE L[r[k]]
             B == IF A = {} THEN {} ELSE SeqLang(L, r, k + 1, n)
         IN  UNION {{a \o b : b \in {c \in B : Len(c) + Len(a) <= n}} : a \in A}
RECURSIVE LangFix(_, _, _)
LangFix(P, L, n) ==
    LET L2 == TLCEval([x \in DOMAIN L |->
                 L[x] \cup UNION {Short(SeqLang(L, P[i].r, 1, n), n) : i \in {j \in 1..Len(P) : P[j].l = x}}])
    IN  IF L2 = L THEN L ELSE LangFix(P, L2, n)
Language(G, n) == LangFix(Prods(G), [x \in NonTerms(G) |-> {}], n)[Start]

(* Derivability of one token sequence w by spans: the least relation D(X,i,j) *)
(* "X derives w[i+1..j]", for sentences too long to enumerate.                *)
RECURSIVE SpanSeq(_, _, _, _, _)
SpanSeq(D, w, r, k, i) ==      \* the set of j such that r[k..] derives w[i+1..j]
    IF k > Len(r) THEN {i}
    ELSE IF IsTok(r[k])
         THEN IF i < Len(w) /\ w[i + 1] = r[k] THEN SpanSeq(D, w, r, k + 1, i + 1) ELSE {}
         ELSE UNION {SpanSeq(D, w, r, k + 1, j) : j \in D[r[k]][i]}
RECURSIVE SpanFix(_, _, _)
SpanFix(P, w, D) ==
    LET D2 == TLCEval([x \in DOMAIN D |-> TLCEval([i \in 0..Len(w) |->
                D[x][i] \cup UNION {SpanSeq(D, w, P[p].r, 1, i) : p \in {q \in 1..Len(P) : P[q].l = x}}])])
    IN  IF D2 = D THEN D ELSE SpanFix(P, w, D2)
Derives(G, w) ==
    Len(w) \in SpanFix(Prods(G), w, [x \in NonTerms(G) |-> [i \in 0..Len(w) |-> {}]])[Start][0]
=============================================================================
