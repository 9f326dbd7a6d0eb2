------------------------------ MODULE PrecTheory ------------------------------
(* What precedence means, said of trees and not of tables, for every way of   *)
(* giving levels and associativities to two binary operators, a prefix        *)
(* operator and a tag its production may be moved to: of the many trees of an *)
(* expression the parser builds the one in which every choice between         *)
(* reducing and shifting was made as declared.  The states are the ways of    *)
(* declaring.                                                                 *)
EXTENDS Lalr

CONSTANTS Levels, WordLen

Num == 1
Op1 == 2
Op2 == 3
Pre == 4
Tag == 301
E == 101
Listed == {Op1, Op2, Pre, Tag}

VARIABLES lv, as, tag,         \* level of each symbol, associativity of each level, is the tag used?
          all                  \* everything has been decided
vars == <<lv, as, tag, all>>
Init == /\ lv \in [{Op1, Op2} -> 0..Levels]
        /\ as = <<>> /\ tag = FALSE /\ all = FALSE
Next == /\ ~all /\ all' = TRUE
        /\ tag' \in BOOLEAN
        /\ \E a, b \in 0..Levels : lv' = (Pre :> a) @@ (Tag :> b) @@ lv
        /\ as' \in [1..Levels -> {"L", "R", "N"}]
        \* levels in use are 1..n, unused ones and an unused tag do not vary
        /\ \A k \in 1..Levels : (\A x \in Listed : lv'[x] # k) => (as'[k] = "N" /\ \A x \in Listed : lv'[x] < k)
        /\ (lv'[Tag] > 0) = tag'
Spec == Init /\ [][Next]_vars

G == LET top == MaxOf({lv[x] : x \in Listed})
         Syms(k) == Sorted({x \in Listed : lv[x] = k})
         pr(r, pt) == [l |-> E, r |-> r, pt |-> pt, pk |-> "none"]
     IN  [nt |-> 4, nn |-> 1, lines |-> [k \in 1..top |-> [a |-> as[k], s |-> Syms(k)]],
          prods |-> <<pr(<<E, Op1, E>>, 0), pr(<<E, Op2, E>>, 0), pr(<<Pre, E>>, IF tag THEN Tag ELSE 0), pr(<<Num>>, 0)>>]

-----------------------------------------------------------------------------
(* trees: [p, i, j, k] with p the production (0: a token), i..j the tokens     *)
(* covered (i exclusive), k the children                                      *)
Leaf(w, i) == [p |-> 0, i |-> i, j |-> i + 1, k |-> <<>>]
Node(p, ks) == [p |-> p, i |-> ks[1].i, j |-> ks[Len(ks)].j, k |-> ks]
RECURSIVE Trees(_, _, _)
Trees(w, i, j) ==
    (IF j = i + 1 /\ w[i + 1] = Num THEN {Node(4, <<Leaf(w, i)>>)} ELSE {})
    \cup (IF j > i + 1 /\ w[i + 1] = Pre THEN {Node(3, <<Leaf(w, i), x>>) : x \in Trees(w, i + 1, j)} ELSE {})
    \cup UNION {{Node(w[o + 1] - 1, <<x, Leaf(w, o), y>>) : x \in Trees(w, i, o), y \in Trees(w, o + 1, j)}
                : o \in {n \in (i + 1)..(j - 2) : w[n + 1] \in {Op1, Op2}}}

RECURSIVE Nodes(_)
Nodes(t) == IF t.p = 0 THEN {} ELSE {t} \cup UNION {Nodes(t.k[n]) : n \in 1..Len(t.k)}
Last(t) == t.k[Len(t.k)]

(* does production p give way to token t?                                     *)
Lev(p) == CASE p = 1 -> lv[Op1] [] p = 2 -> lv[Op2] [] p = 3 -> IF tag THEN lv[Tag] ELSE lv[Pre]
Reduces(p, t) == lv[t] < Lev(p) \/ (lv[t] = Lev(p) /\ lv[t] > 0 /\ as[lv[t]] = "L")

(* a phrase with an operator, ended and followed by token t: either it was     *)
(* made a phrase before t was read, and the declarations say so; or t was      *)
(* read into its last part, and they say that                                 *)
Declared(w, t) ==
    /\ \A x \in Nodes(t) : x.p \in 1..3 /\ x.j < Len(w) => Reduces(x.p, w[x.j + 1])
    /\ \A x \in Nodes(t) : x.p \in 1..3 =>
          \A y \in Nodes(Last(x)) : y.p \in {1, 2} /\ y.i = Last(x).i => ~Reduces(x.p, w[y.k[2].i + 1])

-----------------------------------------------------------------------------
(* the tree the tables build                                                  *)
RECURSIVE Run(_, _, _, _, _)
Run(B, w, st, ks, i) ==
    LET s == st[Len(st)]
        t == IF i >= Len(w) THEN End ELSE w[i + 1]
        p == Fallback(B, s, t)
    IN  IF t \in B.R[s].sh THEN Run(B, w, Append(st, B.T[s][t]), Append(ks, Leaf(w, i)), i + 1)
        ELSE IF p = 0 THEN <<>>
        ELSE IF p = 1 THEN <<ks[1]>>
        ELSE LET n == Len(B.P[p].r)
                 b == SubSeq(st, 1, Len(st) - n)
             IN  Run(B, w, Append(b, B.T[b[Len(b)]][E]),
                     Append(SubSeq(ks, 1, Len(ks) - n), Node(p - 1, SubSeq(ks, Len(ks) - n + 1, Len(ks)))), i)

Expr == {w \in UNION {[1..k -> 1..4] : k \in 1..WordLen} : Trees(w, 0, Len(w)) # {}}
Exprs == TLCEval(Expr)
Forest == TLCEval([w \in Exprs |-> Trees(w, 0, Len(w))])

Theory ==
    all =>
    LET B == TLCEval(Build(G))
        prs == {1, 2, 3} \X {Op1, Op2}
    IN  /\ \A w \in Exprs :
              LET good == {t \in Forest[w] : Declared(w, t)}
              IN  Cardinality(good) = 1 /\ Run(B, w, <<1>>, <<>>, 0) = <<CHOOSE t \in good : TRUE>>
        /\ B.nsr = Cardinality({c \in prs : lv[c[2]] = Lev(c[1]) /\ ~Reduces(c[1], c[2])})
        /\ B.nrr = 0
=============================================================================
