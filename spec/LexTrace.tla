------------------------------ MODULE LexTrace ------------------------------
(* Trace validation for lexical analysis: each case is a lexicon, a history   *)
(* of operations on streams, and what the real code showed.  The machine      *)
(* performs the operations on the specification's streams (Lexer), compares   *)
(* what each shows and names the properties a difference contradicts.  After  *)
(* a difference that leaves the place in the text clear it carries on from    *)
(* where the code is, so later steps are judged by themselves.                *)
EXTENDS Lexer, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES ci, oi, ss, dead
vars == <<ci, oi, ss, dead>>

C == Cases[ci]
L == C.lex

Blame(props, what, o) ==
    \A p \in props : PrintT(<<"BLAME", p, C.id, oi, what, o>>)

SetOf(seq) == {seq[k] : k \in DOMAIN seq}

(* is the observed text what is at the current place, non-empty?              *)
PrefixOK(S, o) ==
    LET b == S.stack[Len(S.stack)]
    IN  Len(o.lex) > 0 /\ LitAt(o.lex, b.text, b.from)

Verdict(m, o) ==
    LET S == m.S
        e == Shown(L, S)
        inj == IF m.inj THEN {"C10"} ELSE {}
        isEnd == o.k = "tok" /\ o.lex = <<>> /\ SetOf(o.tags) = {L.end}
    IN
    IF o.k = "panic" THEN [p |-> {"C14"} \cup inj, w |-> "panic", stop |-> TRUE]
    ELSE IF m.seen # <<>> /\ m.seen # <<o>> THEN [p |-> {"C16"}, w |-> "second look differs", stop |-> TRUE]
    ELSE IF e.k = o.k /\ e.tags = SetOf(o.tags) /\ Cardinality(e.tags) = Len(o.tags) /\ e.lex = o.lex
    THEN IF o.label # e.label THEN [p |-> {"C13"} \cup (IF S.phase = "read" THEN inj ELSE IF S.phase = "over" THEN {"C16"} ELSE {}), w |-> "label", stop |-> FALSE]
         ELSE IF o.line # e.line \/ o.off # e.off
              THEN [p |-> {"C13"} \cup (IF S.phase = "over" THEN {"C16"} ELSE {}), w |-> "location", stop |-> FALSE]
         ELSE IF o.shown # LocStr(e.label, e.line, e.off) THEN [p |-> {"C13"}, w |-> "shown", stop |-> FALSE]
         ELSE [p |-> {}, w |-> "", stop |-> FALSE]
    ELSE IF S.phase = "read"
    THEN CASE isEnd \/ o.k = "awe" -> [p |-> {"C12"} \cup inj, w |-> "text lost", stop |-> TRUE]
           [] o.lex = <<>> -> [p |-> {"C14", "C11"} \cup inj, w |-> "empty item", stop |-> TRUE]
           [] OTHER ->
                [p |-> inj \cup (IF e.k = "unx" /\ o.k = "unx" THEN {"C12"}
                                 ELSE IF e.k = "unx" \/ o.k = "unx" THEN {"C11", "C12"}
                                 ELSE {"C11"})
                           \cup (IF PrefixOK(S, o) THEN {} ELSE {"C12"}),
                 w |-> "item", stop |-> ~PrefixOK(S, o)]
    ELSE IF S.phase = "end" THEN [p |-> {"C16"} \cup (IF o.k = "awe" THEN {} ELSE {"C12"}) \cup inj,
                                  w |-> "end marker", stop |-> TRUE]
    ELSE [p |-> {"C16"} \cup inj, w |-> "over", stop |-> TRUE]

(* what an item says of itself (its message): the kinds, the text and the     *)
(* place are put into a frame that is the same for every item of its sort.    *)
(* The frames are those of the probes, items with texts and kinds found       *)
(* nowhere else: frame pieces are <<"s", code points>>, <<"text">>, <<"place">>*)
(* and <<"kinds">> (with "sep" between one and the next).                     *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE KindsStr(_, _, _)
KindsStr(tags, sep, k) ==
    IF k > Len(tags) THEN <<>>
    ELSE (IF k > 1 THEN sep ELSE <<>>) \o <<84>> \o Digits(tags[k]) \o KindsStr(tags, sep, k + 1)
RECURSIVE Filled(_, _, _)
Filled(f, o, k) ==
    IF k > Len(f.parts) THEN <<>>
    ELSE LET p == f.parts[k]
         IN  (CASE p.p = "text" -> o.lex
                [] p.p = "place" -> o.place
                [] p.p = "kinds" -> KindsStr(o.tags, f.sep, 1)
                [] OTHER -> p.s) \o Filled(f, o, k + 1)
Has(f, w) == \E k \in 1..Len(f.parts) : f.parts[k].p = w
(* kinds, text and place are all there, and none runs into the next           *)
FrameOK(kind, f) ==
    /\ Has(f, "place")
    /\ kind \in {"tok", "unx", "amb"} => Has(f, "text")
    /\ kind \in {"tok", "amb"} => Has(f, "kinds")
    /\ kind = "amb" => f.sep # <<>>
    /\ \A k \in 1..(Len(f.parts) - 1) : f.parts[k].p = "s" \/ f.parts[k + 1].p = "s"
Says(o) == \A k \in 1..Len(C.frames) :
              C.frames[k].k = o.k => (FrameOK(o.k, C.frames[k]) /\ Filled(C.frames[k], o, 1) = o.msg)
Message(v, o) == IF v.w = "" /\ "frames" \in DOMAIN C /\ ~Says(o)
                 THEN [v EXCEPT !.p = {"C27"}, !.w = "message"] ELSE v

(* carry on from where the code is                                            *)
Resync(S, o) ==
    IF S.phase = "read" /\ o.k \in {"tok", "amb", "unx"} /\ PrefixOK(S, o)
    THEN LET n == Len(S.stack)
             b == S.stack[n]
         IN  [S EXCEPT !.stack[n] = [b EXCEPT !.k = o.k, !.tags = SetOf(o.tags), !.pos = b.from + Len(o.lex)]]
    ELSE S

(* the same stream alone, and in a thread of its own, shows the same          *)
Alone(s, k, o) ==
    IF C.streams = 1 THEN TRUE
    ELSE /\ (Len(C.solo[s]) >= k /\ C.solo[s][k] = o)
         /\ (Len(C.thr[s]) >= k /\ C.thr[s][k] = o)

Init == /\ ci \in 1..Len(Cases)
        /\ oi = 0
        /\ ss = <<>>
        /\ dead = FALSE

Make ==
    /\ oi = 0
    /\ LET f == Faults(L)
           bad == IF C.made = "hang" THEN {"C14"}
                  ELSE IF f = {} /\ C.made # "ok" THEN {"C15"}
                  ELSE IF f # {} /\ C.made \notin f THEN {"C15"} ELSE {}
       IN  /\ Blame(bad, "made", <<C.made, f>>)
           /\ dead' = (C.made # "ok" \/ f # {})
    /\ oi' = 1
    /\ ss' = [k \in 1..C.streams |-> [S |-> <<>>, seen |-> <<>>, inj |-> FALSE, k |-> 0]]
    /\ UNCHANGED ci

Op == C.ops[oi]

Step ==
    /\ oi > 0 /\ ~dead /\ oi <= Len(C.ops) /\ oi <= Len(C.obs)
    /\ LET op == Op
           o  == C.obs[oi]
           s  == op.s
           m  == ss[s]
           k  == m.k + 1
           adv == IF op.o \in {"advf"} THEN [m EXCEPT !.S = Advance(L, m.S), !.seen = <<>>] ELSE m
           v  == IF o.k = "panic" THEN [p |-> {"C14"} \cup (IF m.inj THEN {"C10"} ELSE {}), w |-> "panic", stop |-> TRUE]
                 ELSE IF op.o \in {"front", "fadv", "advf"} THEN Message(Verdict(adv, o), o)
                 ELSE IF op.o = "empty" THEN
                     [p |-> IF o.b = (m.S.stack = <<>>) THEN {} ELSE {"C16"}, w |-> "is_empty", stop |-> FALSE]
                 ELSE [p |-> {}, w |-> "", stop |-> FALSE]
           r  == IF op.o \in {"front", "fadv", "advf"} THEN Resync(adv.S, o) ELSE <<>>
           m1 == IF v.stop THEN m ELSE
                 CASE op.o = "new"   -> [S |-> NewStream(L, op.t, op.l), seen |-> <<>>, inj |-> FALSE, k |-> k]
                   [] op.o = "front" -> [m EXCEPT !.S = r, !.seen = <<o>>, !.k = k]
                   [] op.o = "fadv"  -> [m EXCEPT !.S = Advance(L, r), !.seen = <<>>, !.k = k]
                   [] op.o = "advf"  -> [adv EXCEPT !.S = r, !.seen = <<o>>, !.k = k]
                   [] op.o = "adv"   -> [m EXCEPT !.S = Advance(L, m.S), !.seen = <<>>, !.k = k]
                   [] op.o = "inj"   -> [m EXCEPT !.S = Inject(L, m.S, op.t, op.l), !.inj = TRUE, !.k = k,
                                                  !.seen = IF Open(L, op.t, op.l).k = "none" THEN @ ELSE <<>>]
                   [] OTHER          -> [m EXCEPT !.k = k]
       IN  /\ Blame(v.p, v.w, o)
           /\ Blame(IF Alone(s, k, o) THEN {} ELSE {"C16"}, "not alone", o)
           /\ ss' = [ss EXCEPT ![s] = m1]
           /\ dead' = v.stop
    /\ oi' = oi + 1
    /\ UNCHANGED ci

Next == Make \/ Step

(* every case is carried through: its last operation, or the code's end       *)
Finished == dead \/ (oi > 0 /\ (oi > Len(C.ops) \/ oi > Len(C.obs)))
Count == Finished => TLCSet(1, TLCGet(1) + 1)
Post == PrintT(<<"CASES", TLCGet(1), Len(Cases)>>)
ASSUME TLCSet(1, 0)
=============================================================================
