------------------------------- MODULE Regex -------------------------------
(* Regular expressions as used for tokens and skips: leftmost-first (Perl     *)
(* like) matching at a given position of a text.  A text is a sequence of     *)
(* code points; positions are 1..Len(t)+1.  A regular expression is a record  *)
(*   [o |-> "set", neg |-> BOOLEAN, r |-> << <<lo,hi>>, ... >>]  one character *)
(*   [o |-> "cat", a |-> <<...>>]   [o |-> "alt", a |-> <<...>>]               *)
(*   [o |-> "rep", x |-> re, min |-> m, max |-> n (-1: no limit), lazy |-> b]  *)
(*   [o |-> "eot"]  end of text ($)      [o |-> "eol"]  end of line ((?m:$))   *)
(*   [o |-> "wb", r |-> ranges]  a word boundary, the ranges being the words   *)
(* (a pattern is put to the text from the current position on, so the first  *)
(* two are of interest anywhere, boundaries only after a character)           *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Dedup(_, _, _)
Dedup(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE Dedup(s, i + 1, IF \E k \in 1..Len(acc) : acc[k] = s[i] THEN acc ELSE Append(acc, s[i]))

Zero == {"eot", "eol", "wb"}
In(rs, c) == \E k \in 1..Len(rs) : rs[k][1] <= c /\ c <= rs[k][2]
Holds(r, t, i) ==
    CASE r.o = "eot" -> i = Len(t) + 1
      [] r.o = "eol" -> i = Len(t) + 1 \/ (i <= Len(t) /\ t[i] = 10)
      [] r.o = "wb"  -> (i > 1 /\ In(r.r, t[i - 1])) # (i <= Len(t) /\ In(r.r, t[i]))

InSet(r, c) == (\E k \in 1..Len(r.r) : r.r[k][1] <= c /\ c <= r.r[k][2]) # r.neg

(* All end positions of matches of r starting at i, most preferred first.     *)
RECURSIVE Ends(_, _, _), CatEnds(_, _, _, _), AltEnds(_, _, _, _), RepEnds(_, _, _, _, _, _),
          FlatEnds(_, _, _, _, _)
Ends(r, t, i) ==
    CASE r.o = "set" -> IF i <= Len(t) /\ InSet(r, t[i]) THEN <<i + 1>> ELSE <<>>
      [] r.o = "cat" -> CatEnds(r.a, 1, t, i)
      [] r.o = "alt" -> AltEnds(r.a, 1, t, i)
      [] r.o = "rep" -> RepEnds(r.x, r.min, r.max, r.lazy, t, i)
      [] r.o \in Zero -> IF Holds(r, t, i) THEN <<i>> ELSE <<>>
      [] OTHER -> <<>>

(* the ends of a[k..] after each of the positions es[j..], in that order      *)
FlatEnds(a, k, t, es, j) ==
    IF j > Len(es) THEN <<>>
    ELSE CatEnds(a, k, t, es[j]) \o FlatEnds(a, k, t, es, j + 1)

CatEnds(a, k, t, i) ==
    IF k > Len(a) THEN <<i>>
    ELSE Dedup(FlatEnds(a, k + 1, t, Ends(a[k], t, i), 1), 1, <<>>)

AltEnds(a, k, t, i) ==
    IF k > Len(a) THEN <<>>
    ELSE Dedup(Ends(a[k], t, i) \o AltEnds(a, k + 1, t, i), 1, <<>>)

RECURSIVE RepFlat(_, _, _, _, _, _, _, _)
RepFlat(x, mn, mx, lazy, t, es, j, i) ==
    IF j > Len(es) THEN <<>>
    ELSE (IF es[j] = i /\ mn = 0 THEN <<>>        \* an empty iteration achieves nothing
          ELSE RepEnds(x, IF mn > 0 THEN mn - 1 ELSE 0, IF mx > 0 THEN mx - 1 ELSE mx, lazy, t, es[j]))
         \o RepFlat(x, mn, mx, lazy, t, es, j + 1, i)

(* Repetition without limit from es[j..] on, every position gone on from once *)
(* only: what a position leads to is the same each time, and its first place  *)
(* in the order of preference is the one that counts.                         *)
RECURSIVE StarFrom(_, _, _, _, _), StarOver(_, _, _, _, _, _, _)
StarOver(x, lazy, t, es, j, i, acc) ==      \* acc: <<ends so far, positions gone on from>>
    IF j > Len(es) THEN acc
    ELSE LET a == IF es[j] = i THEN acc ELSE StarFrom(x, lazy, t, es[j], acc)
         IN  IF Len(a[1]) >= 0 THEN StarOver(x, lazy, t, es, j + 1, i, a) ELSE a
StarFrom(x, lazy, t, i, acc) ==
    IF i \in acc[2] THEN acc
    ELSE LET b == <<IF lazy THEN Append(acc[1], i) ELSE acc[1], acc[2] \cup {i}>>
             m == StarOver(x, lazy, t, Ends(x, t, i), 1, i, b)
         IN  IF lazy THEN m ELSE <<Append(m[1], i), m[2]>>

RepEnds(x, mn, mx, lazy, t, i) ==
    IF mx = 0 THEN <<i>>
    ELSE IF mn = 0 /\ mx < 0 THEN StarFrom(x, lazy, t, i, <<<<>>, {}>>)[1]
    ELSE LET more == RepFlat(x, mn, mx, lazy, t, Ends(x, t, i), 1, i)
         IN  IF mn > 0 THEN Dedup(more, 1, <<>>)
             ELSE IF lazy THEN Dedup(<<i>> \o more, 1, <<>>)
             ELSE Dedup(more \o <<i>>, 1, <<>>)

(* Length in characters of the match at i; matching nothing is not a match.   *)
MatchLen(r, t, i) == LET es == Ends(r, t, i) IN IF es = <<>> THEN 0 ELSE es[1] - i

-----------------------------------------------------------------------------
(* Declarative meaning: the set of ends, without preference.  Used to check   *)
(* Ends (MCRegex).                                                            *)
RECURSIVE EndSet(_, _, _)
RECURSIVE Power(_, _, _, _)      \* ends after exactly n repetitions
Power(x, t, i, n) == IF n = 0 THEN {i} ELSE UNION {EndSet(x, t, j) : j \in Power(x, t, i, n - 1)}
EndSet(r, t, i) ==
    CASE r.o = "set" -> IF i <= Len(t) /\ InSet(r, t[i]) THEN {i + 1} ELSE {}
      [] r.o = "cat" -> LET F[k \in 0..Len(r.a)] ==
                              IF k = 0 THEN {i} ELSE UNION {EndSet(r.a[k], t, j) : j \in F[k - 1]}
                        IN F[Len(r.a)]
      [] r.o = "alt" -> UNION {EndSet(r.a[k], t, i) : k \in 1..Len(r.a)}
      [] r.o = "rep" -> UNION {Power(r.x, t, i, n) :
                               n \in r.min..(IF r.max = -1 THEN r.min + Len(t) + 1 ELSE r.max)}
      [] r.o \in Zero -> IF Holds(r, t, i) THEN {i} ELSE {}
      [] OTHER -> {}
=============================================================================
