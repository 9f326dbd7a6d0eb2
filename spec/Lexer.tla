------------------------------- MODULE Lexer -------------------------------
(* Lexical analysis: lexicons, what is read at a position, locations, and the *)
(* state of a token stream (a stack of texts) with its operations.            *)
(* A lexicon L is a record                                                    *)
(*   lits  << [tag, s (code points)] >>      regs << [tag, re, ok, src] >>    *)
(*   skips << [re, ok, src] >>               end  tag of the end marker       *)
EXTENDS Regex, TLC

Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

RECURSIVE Bytes(_, _, _)
Bytes(t, i, j) == IF i >= j THEN 0 ELSE Width(t[i]) + Bytes(t, i + 1, j)   \* of t[i..j-1]

NL == 10
Slice(t, i, j) == SubSeq(t, i, j - 1)

-----------------------------------------------------------------------------
(* Lexicon validity: the kinds of fault present                               *)
SrcsOf(L) == [k \in 1..(Len(L.lits) + Len(L.regs) + Len(L.skips)) |->
                IF k <= Len(L.lits) THEN L.lits[k].s
                ELSE IF k <= Len(L.lits) + Len(L.regs) THEN L.regs[k - Len(L.lits)].src
                ELSE L.skips[k - Len(L.lits) - Len(L.regs)].src]
TagsOf(L) == [k \in 1..(Len(L.lits) + Len(L.regs) + 1) |->
                IF k <= Len(L.lits) THEN L.lits[k].tag
                ELSE IF k <= Len(L.lits) + Len(L.regs) THEN L.regs[k - Len(L.lits)].tag
                ELSE L.end]
Faults(L) ==
    LET srcs == SrcsOf(L)
        tags == TagsOf(L)
    IN  (IF \E i, j \in DOMAIN tags : i < j /\ tags[i] = tags[j] THEN {"DuplicateHandle"} ELSE {})
   \cup (IF \E i, j \in DOMAIN srcs : i < j /\ srcs[i] = srcs[j] THEN {"DuplicatePattern"} ELSE {})
   \cup (IF \E i \in DOMAIN srcs : srcs[i] = <<>> THEN {"EmptyPattern"} ELSE {})
   \cup (IF (\E i \in 1..Len(L.regs) : ~L.regs[i].ok) \/ (\E i \in 1..Len(L.skips) : ~L.skips[i].ok)
         THEN {"RegexError"} ELSE {})

-----------------------------------------------------------------------------
(* What is read at a position                                                 *)
LitAt(s, t, i) == i + Len(s) - 1 <= Len(t) /\ \A k \in 1..Len(s) : t[i + k - 1] = s[k]

Max(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE SkipEnd(_, _, _)
SkipEnd(L, t, i) ==
    IF i > Len(t) THEN i
    ELSE LET m == [k \in 1..Len(L.skips) |-> MatchLen(L.skips[k].re, t, i)]
             S == {k \in 1..Len(L.skips) : m[k] > 0}
         IN  IF S = {} THEN i
             ELSE SkipEnd(L, t, i + m[CHOOSE k \in S : \A l \in S : k <= l])

Acceptable(L, t, i) ==
    \/ \E k \in 1..Len(L.lits) : LitAt(L.lits[k].s, t, i)
    \/ \E k \in 1..Len(L.regs) : MatchLen(L.regs[k].re, t, i) > 0
    \/ \E k \in 1..Len(L.skips) : MatchLen(L.skips[k].re, t, i) > 0

RECURSIVE NextValid(_, _, _)
NextValid(L, t, i) == IF i > Len(t) THEN i ELSE IF Acceptable(L, t, i) THEN i ELSE NextValid(L, t, i + 1)

(* The item at an unskippable position i <= Len(t): a token, an ambiguity or  *)
(* unexpected text.  `to' is the position after it.                           *)
ItemAt(L, t, i) ==
    LET ls   == {k \in 1..Len(L.lits) : LitAt(L.lits[k].s, t, i)}
        llen == IF ls = {} THEN 0 ELSE Max({Len(L.lits[k].s) : k \in ls})
        rm   == [k \in 1..Len(L.regs) |-> MatchLen(L.regs[k].re, t, i)]
        rlen == IF Len(L.regs) = 0 THEN 0 ELSE Max({rm[k] : k \in 1..Len(L.regs)})
        rs   == {k \in 1..Len(L.regs) : rm[k] = rlen}
    IN  IF llen > 0 /\ llen >= rlen
        THEN [k |-> "tok", tags |-> {L.lits[l].tag : l \in {x \in ls : Len(L.lits[x].s) = llen}},
              from |-> i, to |-> i + llen]
        ELSE IF rlen > 0
        THEN [k |-> IF Cardinality(rs) = 1 THEN "tok" ELSE "amb", tags |-> {L.regs[l].tag : l \in rs},
              from |-> i, to |-> i + rlen]
        ELSE [k |-> "unx", tags |-> {}, from |-> i, to |-> NextValid(L, t, i + 1)]

-----------------------------------------------------------------------------
(* Locations                                                                  *)
LineAt(t, p) == 1 + Cardinality({k \in 1..(p - 1) : t[k] = NL})
RECURSIVE LineStart(_, _)
LineStart(t, p) == IF p = 1 THEN 1 ELSE IF t[p - 1] = NL THEN p ELSE LineStart(t, p - 1)
OffAt(t, p) == 1 + Bytes(t, LineStart(t, p), p)

(* a label containing blanks is quoted and an empty one omitted               *)
Blank(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) \in {" ", "\t"}
LocStr(label, line, off) ==
    (IF label = "" THEN "" ELSE IF Blank(label) THEN "\"" \o label \o "\":" ELSE label \o ":")
    \o ToString(line) \o ":" \o ToString(off)

-----------------------------------------------------------------------------
(* A text being read: `from' is where its current item begins, `pos' where it *)
(* ends.  Reading a text that has no (more) items leaves kind "none" and the  *)
(* location of its end.                                                       *)
ReadFrom(L, t, label, p) ==
    LET q == SkipEnd(L, t, p)
    IN  IF q > Len(t) THEN [text |-> t, label |-> label, k |-> "none", tags |-> {}, from |-> q, pos |-> q]
        ELSE LET it == ItemAt(L, t, q)
             IN [text |-> t, label |-> label, k |-> it.k, tags |-> it.tags, from |-> it.from, pos |-> it.to]

Open(L, t, label) == ReadFrom(L, t, label, 1)

(* A stream: a stack of texts being read (last one current) and, once it is   *)
(* exhausted, the label and place of the end.                                 *)
(*   phase "read": stack nonempty; "end": the end marker is current;          *)
(*   "over": advanced when empty                                              *)
NewStream(L, t, label) ==
    LET b == Open(L, t, label)
    IN  [stack |-> IF b.k = "none" THEN <<>> ELSE <<b>>,
         phase |-> IF b.k = "none" THEN "over" ELSE "read",
         last |-> b]

Inject(L, S, t, label) ==
    LET b == Open(L, t, label)
    IN  IF b.k = "none" THEN S
        ELSE [S EXCEPT !.stack = Append(@, b), !.phase = "read"]

RECURSIVE Unwind(_, _)
Unwind(stk, last) ==
    IF stk = <<>> THEN [stack |-> <<>>, last |-> last]
    ELSE IF stk[Len(stk)].k = "none" THEN Unwind(SubSeq(stk, 1, Len(stk) - 1), stk[Len(stk)])
    ELSE [stack |-> stk, last |-> last]

Advance(L, S) ==
    IF S.phase # "read" THEN [S EXCEPT !.phase = "over"]
    ELSE LET n == Len(S.stack)
             top == S.stack[n]
             u == Unwind([S.stack EXCEPT ![n] = ReadFrom(L, top.text, top.label, top.pos)], S.last)
         IN  [stack |-> u.stack, last |-> u.last, phase |-> IF u.stack = <<>> THEN "end" ELSE "read"]

(* What `front' shows                                                         *)
Shown(L, S) ==
    LET b == IF S.phase = "read" THEN S.stack[Len(S.stack)] ELSE S.last
        from == b.from
    IN  [k     |-> IF S.phase = "read" THEN b.k ELSE IF S.phase = "end" THEN "tok" ELSE "awe",
         tags  |-> IF S.phase = "read" THEN b.tags ELSE IF S.phase = "end" THEN {L.end} ELSE {},
         lex   |-> IF S.phase = "read" THEN Slice(b.text, from, b.pos) ELSE <<>>,
         label |-> b.label, line |-> LineAt(b.text, from), off |-> OffAt(b.text, from)]
=============================================================================
