------------------------------- MODULE Driver -------------------------------
(* The machine that parses a text: a parse stack with attributes, driven by   *)
(* the tables of Lalr and reading a token stream of Lexer.  Every step makes  *)
(* one observable event:                                                      *)
(*   s  a token is shifted            r  a production is reduced (its action) *)
(*   rep an error is reported         e  the error symbol is pushed           *)
(*   z  the parse ends                                                        *)
(* State m:                                                                   *)
(*   S the stream; st states and at attributes [id, v] on the stack; id the   *)
(*   last identity given to an attribute; rec the index (into st) of the last *)
(*   recovery if nothing has been shifted or discarded since (0: none); res   *)
(*   the last error reported; ph "go", "rec" (an error is to be recovered     *)
(*   from) or "done"; inj texts waiting to be injected; injd whether any was  *)
EXTENDS Lalr, Lexer

Start0(L, text, label, inj) ==
    [S |-> NewStream(L, text, label), st |-> <<1>>, at |-> <<>>, id |-> 0, rec |-> 0,
     res |-> <<>>, ph |-> "go", inj |-> inj, injd |-> FALSE]

(* what is current: past the end it is the end marker, at the place of the end *)
Cur(L, S) ==
    LET sh == Shown(L, S)
    IN  IF sh.k = "awe" THEN [sh EXCEPT !.k = "tok", !.tags = {End}] ELSE sh
TokOf(c) == CHOOSE t \in c.tags : TRUE
TopOf(s) == s[Len(s)]

WithExp(c, ex) == [k |-> c.k, tags |-> c.tags, lex |-> c.lex, label |-> c.label, line |-> c.line, off |-> c.off, exp |-> ex]

RECURSIVE SumV(_, _)
SumV(a, k) == IF k = 0 THEN 0 ELSE a[k].v + SumV(a, k - 1)
RECURSIVE WSumV(_, _)
WSumV(a, k) == IF k = 0 THEN 0 ELSE k * a[k].v + WSumV(a, k - 1)

PredTrue(pr, rhs, t) ==
    CASE pr.pk = "la"    -> t \in Rng(pr.pa)
      [] pr.pk = "par"   -> (SumV(rhs, Len(rhs)) + pr.pa[1]) % 2 = 0
      [] pr.pk = "first" -> Len(rhs) > 0 /\ rhs[1].v % 4 = pr.pa[1]
      [] pr.pk = "last"  -> Len(rhs) > 0 /\ rhs[Len(rhs)].v % 4 = pr.pa[1]
      [] pr.pk = "true"  -> TRUE
      [] OTHER           -> FALSE

TopN(a, n) == SubSeq(a, Len(a) - n + 1, Len(a))
ButN(a, n) == SubSeq(a, 1, Len(a) - n)

(* the production to reduce by: the first whose guard holds, else the         *)
(* unguarded one, else 0                                                      *)
Pick(G, B, s, at, t) ==
    LET ch == Chain(B, s, t)
        ok == {k \in 1..Len(ch) : PredTrue(G.prods[ch[k] - 1], TopN(at, Len(B.P[ch[k]].r)), t)}
    IN  IF ok # {} THEN ch[MinOf(ok)] ELSE Fallback(B, s, t)

Ids(a) == [k \in 1..Len(a) |-> a[k].id]

(* an action injects n of the texts waiting, one after the other *)
RECURSIVE InjectN(_, _, _)
InjectN(L, m, n) ==
    IF n = 0 \/ m.inj = <<>> THEN m
    ELSE InjectN(L, [m EXCEPT !.S = Inject(L, m.S, m.inj[1].t, m.inj[1].l), !.inj = Tail(m.inj), !.injd = TRUE], n - 1)

(* reducing by production p *)
DoReduce(G, B, L, m, p) ==
    LET n == Len(B.P[p].r)
        rhs == TopN(m.at, n)
        st == ButN(m.st, n)
        dcl == p > 1 /\ p - 1 <= Len(G.prods)
        pr == IF dcl THEN G.prods[p - 1] ELSE [act |-> 0, kind |-> "none", cp |-> 0]
        first == IF n > 0 THEN rhs[1] ELSE [id |-> 0, v |-> 0]
        new == [id |-> m.id + 1, v |-> (pr.act + WSumV(rhs, n)) % 8]
        a == CASE pr.kind \in {"act", "inj"} -> new
               [] pr.kind = "copy" -> rhs[pr.cp]
               [] OTHER -> first
        mi == IF pr.kind = "inj" THEN InjectN(L, m, pr.ni) ELSE m
    IN  [m |-> [mi EXCEPT !.st = Append(st, B.T[TopOf(st)][B.P[p].l]),
                         !.at = Append(ButN(m.at, n), a),
                         !.id = IF pr.kind \in {"act", "inj"} THEN m.id + 1 ELSE m.id],
         ev |-> [e |-> "r", l |-> B.P[p].l, n |-> n, rhs |-> Ids(rhs), act |-> pr.act,
                 init |-> IF pr.act > 0 THEN first.id ELSE 0,
                 args |-> IF pr.act > 0 THEN Ids(rhs) ELSE <<>>, id |-> a.id]]

DoReport(B, m, c) ==
    LET w == WithExp(c, Expected(B, TopOf(m.st)))
    IN  [m |-> [m EXCEPT !.res = <<w>>, !.ph = "rec"], ev |-> [e |-> "rep", w |-> w]]

(* recovery: discard until a token at which a state is viable                 *)
RECURSIVE Seek(_, _, _, _, _)
Seek(B, L, S, st, rec) ==
    LET c == [k |-> IF S.phase = "read" THEN S.stack[Len(S.stack)].k ELSE "tok",       \* (of Cur, its place aside)
              tags |-> IF S.phase = "read" THEN S.stack[Len(S.stack)].tags ELSE {L.end}]
        lim == IF rec = 0 THEN Len(st) ELSE MinOf({rec - 1, Len(st)})
        V == IF c.k = "tok" THEN Viable(B, TokOf(c)) ELSE {}
        ok == {i \in 1..lim : st[i] \in V}
    IN  IF ok # {} THEN [S |-> S, i |-> MaxOf(ok)]
        ELSE IF S.phase # "read" THEN [S |-> S, i |-> 0]
        ELSE LET next == Advance(L, S)
             IN  IF next.phase = "none" THEN [S |-> S, i |-> 0] ELSE Seek(B, L, next, st, 0)    \* (evaluates next)

DoRecover(B, L, m) ==
    LET r == Seek(B, L, m.S, m.st, m.rec)
        st == SubSeq(m.st, 1, r.i)
    IN  IF r.i = 0
        THEN [m |-> [m EXCEPT !.ph = "done", !.S = r.S], ev |-> [e |-> "z", ok |-> FALSE, w |-> m.res[1]]]
        ELSE [m |-> [m EXCEPT !.S = r.S, !.rec = r.i, !.ph = "go",
                              !.st = Append(st, ErrGoto(B, st[r.i])),
                              !.at = Append(SubSeq(m.at, 1, r.i - 1), [id |-> m.id + 1, v |-> 0]),
                              !.id = m.id + 1],
              ev |-> [e |-> "e", w |-> m.res[1], id |-> m.id + 1]]

Move(G, B, L, m) ==
    IF m.ph = "rec" THEN DoRecover(B, L, m)
    ELSE LET c == Cur(L, m.S)
             s == TopOf(m.st)
         IN  IF c.k # "tok" THEN DoReport(B, m, c)
             ELSE LET t == TokOf(c)
                  IN  IF t \in B.R[s].sh
                      THEN [m |-> [m EXCEPT !.st = Append(m.st, B.T[s][t]),
                                            !.at = Append(m.at, [id |-> m.id + 1, v |-> t]),
                                            !.id = m.id + 1, !.rec = 0, !.S = Advance(L, m.S)],
                            ev |-> [e |-> "s", w |-> c, id |-> m.id + 1]]
                      ELSE LET p == Pick(G, B, s, m.at, t)
                           IN  IF p = 0 THEN DoReport(B, m, c)
                               ELSE IF p = 1
                               THEN [m |-> [m EXCEPT !.ph = "done"],
                                     ev |-> IF m.res = <<>> THEN [e |-> "z", ok |-> TRUE]
                                            ELSE [e |-> "z", ok |-> FALSE, w |-> m.res[1]]]
                               ELSE DoReduce(G, B, L, m, p)
=============================================================================
