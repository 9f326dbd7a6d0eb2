------------------------------ MODULE MCRegex ------------------------------
(* The preferred-order matcher against the declarative meaning, over all      *)
(* regular expressions of a small size and all short texts.                   *)
EXTENDS Regex, TLC
A == 97  B == 98
Ch(x) == [o |-> "set", neg |-> FALSE, r |-> <<<<x, x>>>>]
Base == {Ch(A), Ch(B), [o |-> "set", neg |-> TRUE, r |-> <<<<A, A>>>>], [o |-> "eot"], [o |-> "wb", r |-> <<<<A, A>>>>]}
Reps(X) == {[o |-> "rep", x |-> x, min |-> m[1], max |-> m[2], lazy |-> z] :
             x \in X, m \in {<<0, -1>>, <<1, -1>>, <<0, 1>>, <<2, 2>>, <<1, 2>>}, z \in BOOLEAN}
Pairs(X, Y) == {[o |-> "cat", a |-> <<x, y>>] : x \in X, y \in Y} \cup {[o |-> "alt", a |-> <<x, y>>] : x \in X, y \in Y}
L1 == Base \cup Reps({b \in Base : b.o = "set"}) \cup Pairs(Base, Base)
NonNull(r) == \A t \in {<<>>, <<A>>, <<B>>} : 1 \notin EndSet(r, t, 1)
L2 == L1 \cup Reps({r \in L1 : NonNull(r)}) \cup Pairs(L1, Base) \cup Pairs(Base, L1)
Texts == UNION {[1..k -> {A, B}] : k \in 0..4}
VARIABLES r, t
Init == r \in L2 /\ t \in Texts
Next == UNCHANGED <<r, t>>
Agree == \A i \in 1..(Len(t) + 1) :
            LET e == Ends(r, t, i) IN
              /\ {e[k] : k \in 1..Len(e)} = EndSet(r, t, i)
              /\ Cardinality({e[k] : k \in 1..Len(e)}) = Len(e)
(* repetition without limit, spelled out: again from every end in turn, then  *)
(* (or, lazy, first) no more                                                  *)
RECURSIVE Plain(_, _, _, _), PlainOver(_, _, _, _, _, _)
PlainOver(x, z, s, es, j, i) ==
    IF j > Len(es) THEN <<>>
    ELSE (IF es[j] = i THEN <<>> ELSE Plain(x, z, s, es[j])) \o PlainOver(x, z, s, es, j + 1, i)
Plain(x, z, s, i) == LET m == PlainOver(x, z, s, Ends(x, s, i), 1, i)
                     IN  Dedup(IF z THEN <<i>> \o m ELSE m \o <<i>>, 1, <<>>)
Once == (r.o = "rep" /\ r.min = 0 /\ r.max = -1) =>
            \A i \in 1..(Len(t) + 1) : Ends(r, t, i) = Plain(r.x, r.lazy, t, i)
(* greedy repetition of a single character takes most, lazy takes least       *)
Greedy == (r.o = "rep" /\ r.x.o = "set") =>
            LET e == Ends(r, t, 1) IN e # <<>> => \A k \in 1..Len(e) : IF r.lazy THEN e[1] <= e[k] ELSE e[k] <= e[1]
(* the first alternative that matches at all is preferred                     *)
First == r.o = "alt" => LET a == Ends(r.a[1], t, 1) IN a # <<>> => Ends(r, t, 1)[1] = a[1]
=============================================================================
