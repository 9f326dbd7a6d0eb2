------------------------------ MODULE LexModel ------------------------------
(* Exhaustive check of the specification of lexical analysis itself: all      *)
(* texts up to a length, all histories of advancing and injecting up to a     *)
(* bound, against properties stated independently of how Lexer computes.      *)
EXTENDS Lexer

CONSTANTS MaxText, MaxInj, MaxLab

A == 97  B == 98  SP == 32
Ch(x) == [o |-> "set", neg |-> FALSE, r |-> <<<<x, x>>>>]
Star(x) == [o |-> "rep", x |-> x, min |-> 0, max |-> -1, lazy |-> FALSE]
Plus(x) == [o |-> "rep", x |-> x, min |-> 1, max |-> -1, lazy |-> FALSE]
Alt(x, y) == [o |-> "alt", a |-> <<x, y>>]
Cat(x, y) == [o |-> "cat", a |-> <<x, y>>]
Reg(n, x) == [tag |-> n, re |-> x, ok |-> TRUE, src |-> <<n>>]
Skip(x) == [re |-> x, ok |-> TRUE, src |-> <<100>>]
Lit(n, s) == [tag |-> n, s |-> s]
Lexicons == <<
   [lits |-> <<Lit(1, <<A>>), Lit(2, <<A, B>>)>>, regs |-> <<Reg(3, Plus(Ch(A)))>>, skips |-> <<Skip(Ch(NL))>>, end |-> 9],
   [lits |-> <<>>, regs |-> <<Reg(1, Alt(Ch(A), Cat(Ch(A), Ch(B)))), Reg(2, Star(Ch(A)))>>, skips |-> <<Skip(Star(Ch(NL)))>>, end |-> 9],
   [lits |-> <<Lit(1, <<B, NL>>)>>, regs |-> <<>>, skips |-> <<Skip(Cat(Ch(A), Ch(A))), Skip(Ch(A))>>, end |-> 9]
   >>

Texts(n) == UNION {[1..k -> {A, B, NL}] : k \in 0..n}

VARIABLES lx, S, n, out, injs, ended
\* n: number of texts opened; out: sequence of [txt (number), k, from, to, tags]; labels are text numbers
vars == <<lx, S, n, out, injs, ended>>
L == Lexicons[lx]
Label(k) == <<"1", "2", "3", "4", "5">>[k]
Num(l) == CHOOSE k \in 1..5 : Label(k) = l

Cur == IF S.phase = "read" THEN LET b == S.stack[Len(S.stack)]
                                IN <<[txt |-> Num(b.label), text |-> b.text, k |-> b.k, from |-> b.from, to |-> b.pos, tags |-> b.tags]>>
       ELSE <<>>

Init == /\ lx \in 1..Len(Lexicons)
        /\ \E t \in Texts(MaxText) : S = NewStream(L, t, Label(1))
        /\ n = 1 /\ out = <<>> /\ injs = <<>> /\ ended = 0

Adv == /\ S.phase # "over"
       /\ out' = out \o Cur
       /\ ended' = IF S.phase = "end" THEN ended + 1 ELSE ended
       /\ S' = Advance(L, S)
       /\ UNCHANGED <<lx, n, injs>>
Inj == /\ n <= MaxInj
       /\ \E t \in Texts(MaxLab) :
            /\ S' = Inject(L, S, t, Label(n + 1))
            /\ injs' = Append(injs, [at |-> Len(out), txt |-> n + 1, blank |-> Open(L, t, "x").k = "none"])
       /\ n' = n + 1
       /\ UNCHANGED <<lx, out, ended>>
Next == Adv \/ Inj
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
ItemsOf(k) == SelectSeq(out, LAMBDA x : x.txt = k)

(* every skipped stretch is made of skips                                     *)
RECURSIVE SkippableExactly(_, _, _)
SkippableExactly(t, i, j) ==
    i = j \/ \E k \in 1..Len(L.skips) :
               LET m == MatchLen(L.skips[k].re, t, i) IN m > 0 /\ i + m <= j /\ SkippableExactly(t, i + m, j)

(* C12: tokens, skips and errors tile each text                               *)
Tiling ==
    \A k \in 1..n : LET s == ItemsOf(k) IN
        \A i \in 1..Len(s) :
            /\ s[i].from < s[i].to /\ s[i].to <= Len(s[i].text) + 1
            /\ LET p == IF i = 1 THEN 1 ELSE s[i - 1].to
               IN  p <= s[i].from /\ SkippableExactly(s[i].text, p, s[i].from)

(* C11: longest match, literals win, ties are errors                          *)
Munch ==
    \A i \in 1..Len(out) : LET x == out[i]  t == x.text  len == x.to - x.from IN
        x.k \in {"tok", "amb"} =>
            /\ \A k \in 1..Len(L.lits) : LitAt(L.lits[k].s, t, x.from) => Len(L.lits[k].s) <= len
            /\ \A k \in 1..Len(L.regs) : MatchLen(L.regs[k].re, t, x.from) <= len
            /\ LET ls == {L.lits[k].tag : k \in {j \in 1..Len(L.lits) : LitAt(L.lits[j].s, t, x.from) /\ Len(L.lits[j].s) = len}}
                   rs == {L.regs[k].tag : k \in {j \in 1..Len(L.regs) : MatchLen(L.regs[j].re, t, x.from) = len}}
               IN  IF ls # {} THEN x.k = "tok" /\ x.tags = ls /\ Cardinality(ls) = 1
                   ELSE x.tags = rs /\ (x.k = "amb" <=> Cardinality(rs) > 1)

(* C12: unexpected text ends where something acceptable begins                *)
Unexpected ==
    \A i \in 1..Len(out) : out[i].k = "unx" =>
        /\ \A p \in out[i].from..(out[i].to - 1) : ~Acceptable(L, out[i].text, p)
        /\ out[i].to = Len(out[i].text) + 1 \/ Acceptable(L, out[i].text, out[i].to)

(* C10: injected text comes out as one block (with further injections nested  *)
(* inside), beginning right where it was injected                             *)
Nested ==
    \A i \in 1..Len(injs) :
        /\ injs[i].blank => ItemsOf(injs[i].txt) = <<>>
        /\ \A a \in 1..Len(out) : out[a].txt = injs[i].txt =>
              /\ a > injs[i].at
              \* nothing older is delivered between the injection and its last item
              /\ \A b \in (injs[i].at + 1)..a : out[b].txt >= injs[i].txt

(* C13: locations by counting agree with locations by moving over the text    *)
RECURSIVE Walk(_, _, _)
Walk(t, p, at) == IF at = p THEN <<1, 1>>
                  ELSE LET w == Walk(t, p, at - 1)
                       IN IF t[at - 1] = NL THEN <<w[1] + 1, 1>> ELSE <<w[1], w[2] + Width(t[at - 1])>>
Located == \A i \in 1..Len(out) :
              Walk(out[i].text, 1, out[i].from) = <<LineAt(out[i].text, out[i].from), OffAt(out[i].text, out[i].from)>>

(* C16/C14: when everything has been read the whole of every text came out    *)
Complete ==
    S.phase = "over" =>
        /\ ended >= (IF out = <<>> THEN 0 ELSE 1)
        /\ \A k \in 1..n : LET s == ItemsOf(k) IN
               s # <<>> => SkippableExactly(s[1].text, s[Len(s)].to, Len(s[1].text) + 1)
Bounded == \A k \in 1..n : LET s == ItemsOf(k) IN s # <<>> => Len(s) <= Len(s[1].text)
=============================================================================
