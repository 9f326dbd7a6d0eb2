------------------------------ MODULE GramTrace ------------------------------
(* Validation of what the real generators and the parsers they generate did   *)
(* against Cfg, Lalr and Driver.  Kinds of case:                              *)
(*   tab   the tables in a generated parser, explored state by state          *)
(*   run   the steps of one parse                                             *)
(*   cnt   the outcome of generation with declared numbers of conflicts       *)
(*   lang  the token sequences accepted                                       *)
(*   iso   two parsers whose behaviour is to be the same                      *)
(*   show  what the generated lexer delivers and how its tokens print         *)
EXTENDS Driver, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
GS == Input.gs
Cases == Input.cases
(* the parser of each grammar, built once (register 10 + g)                   *)
ASSUME \A g \in 1..Len(GS) : TLCSet(10 + g, TLCEval(Build(GS[g])))

VARIABLES ci, x          \* the case and where it stands
vars == <<ci, x>>

C == Cases[ci]
G == GS[C.g]
B == TLCGet(10 + C.g)
L == G.lex

Blame(props, at, what, o) == \A p \in props : PrintT(<<"BLAME", p, C.id, at, what, o>>)

NoRaw == \A s \in 1..B.n : B.R[s].srt = {} /\ B.R[s].rrt = {}
AnyPred == \E i \in 1..Len(G.prods) : G.prods[i].pk # "none"
CellProps(s, t) ==
    (IF t \in B.R[s].srt THEN {"C04"} ELSE {})
    \cup (IF t \in B.R[s].rrt \/ Len(Chain(B, s, t)) > 0 THEN {"C06"} ELSE {})

-----------------------------------------------------------------------------
(* tables *)
Act(p) == IF p > 1 /\ p - 1 <= Len(G.prods) THEN G.prods[p - 1].act ELSE 0
RedMatch(c, p) == c.k = "r" /\ c.l = B.P[p].l /\ c.n = Len(B.P[p].r) /\ c.act = Act(p)
CellOK(s, t, c) ==
    IF t \in B.R[s].sh THEN c.k = "s" /\ Len(c.ch) = 0
    ELSE LET ch == Chain(B, s, t)  f == Fallback(B, s, t)
         IN  /\ Len(c.ch) = Len(ch)
             /\ \A k \in 1..Len(ch) : RedMatch(c.ch[k], ch[k]) /\ c.ch[k].p = ch[k] - 1
             /\ IF f = 0 THEN c.k = "err" ELSE IF f = 1 THEN c.k = "acc" ELSE RedMatch(c, f)

(* pairs (specification state, code state) still to be compared, and the     *)
(* correspondence found so far                                                *)
TabInit == [todo |-> <<<<1, 1>>>>, map |-> <<>>, at |-> 0]
MapPut(f, s, i) == TLCEval((s :> i) @@ f)

RECURSIVE Follow(_, _, _)
(* es: edges << spec state, code state >>; adds the new ones                  *)
Follow(es, y, bad) ==
    IF es = <<>> THEN [y |-> y, bad |-> bad]
    ELSE LET e == es[1]
         IN  IF e[1] \in DOMAIN y.map
             THEN Follow(Tail(es), y, bad \/ y.map[e[1]] # e[2])
             ELSE IF \E s \in DOMAIN y.map : y.map[s] = e[2] THEN Follow(Tail(es), y, TRUE)
             ELSE Follow(Tail(es), [y EXCEPT !.map = MapPut(@, e[1], e[2]), !.todo = Append(@, e)], bad)

SetToSeq(S) == LET RECURSIVE Go(_, _)
                   Go(T, acc) == IF T = {} THEN acc ELSE LET e == CHOOSE e \in T : TRUE IN Go(T \ {e}, Append(acc, e))
               IN  Go(S, <<>>)

(* whom the table's faults are put down to                                   *)
TBlame(ps, s, what, v) == Blame(IF ps # {} /\ "prop" \in DOMAIN C THEN {C.prop} ELSE ps, s, what, v)

TabStep ==
    LET d == C.dump
        pr == x.todo[1]
        s == pr[1]
        i == pr[2]
    IN  IF i > Len(d.st)
        THEN /\ TBlame({"C03"}, s, "too many states", i)
             /\ x' = [x EXCEPT !.todo = <<>>]
        ELSE
        LET o == d.st[i]
            r == B.R[s]
            badc == {t \in Toks(G) : ~CellOK(s, t, o.a[t + 1])}
            gos == {k \in 1..Len(o.g) : TRUE}
            gs == {o.g[k][1] : k \in gos}
            want == {X \in DOMAIN B.T[s] : ~IsTok(X)}
            es == SetToSeq({<<B.T[s][t], o.a[t + 1].to>> : t \in {u \in r.sh : u \notin badc}}
                           \cup {<<B.T[s][o.g[k][1]], o.g[k][2]>> : k \in {q \in gos : o.g[q][1] \in want}})
            f == Follow(es, [x EXCEPT !.todo = Tail(@), !.map = MapPut(@, s, i)], FALSE)
            own == {t \in Toks(G) : o.a[t + 1].k # "err" \/ Len(o.a[t + 1].ch) > 0}
            via == {t \in Toks(G) : (s \in Viable(B, t)) # (i \in Rng(d.via[t + 1]))}
        IN  /\ \A t \in badc : TBlame((IF CellProps(s, t) = {} THEN {"C03"} ELSE CellProps(s, t))
                                     \cup (IF r.srt # {} THEN {"C04"} ELSE {})
                                     \cup (IF r.rrt # {} THEN {"C06"} ELSE {}), s, "action on", <<t, o.a[t + 1]>>)
            /\ TBlame(IF gs = want THEN {} ELSE {"C03"}, s, "gotos", gs)
            /\ TBlame(IF f.bad THEN {"C03"} ELSE {}, s, "states", es)
            /\ TBlame(IF Rng(o.exp) = own THEN {} ELSE {"C07"}, s, "expected set", o.exp)
            /\ TBlame(IF via = {} THEN {} ELSE {"C08"}, s, "viable for", via)
            /\ TBlame(IF (\E t \in Toks(G) : s \in Viable(B, t)) /\ ErrGoto(B, s) \in DOMAIN f.y.map
                        /\ o.eg # f.y.map[ErrGoto(B, s)] THEN {"C08"} ELSE {}, s, "error goto", o.eg)
            /\ x' = [f.y EXCEPT !.at = @ + 1]

-----------------------------------------------------------------------------
(* parses *)
WSame(w, o) == /\ w.k = o.k /\ w.tags = Rng(o.t) /\ w.lex = o.lex /\ w.label = o.label
               /\ w.line = o.line /\ w.off = o.off
WESame(w, o) == WSame(w, o) /\ w.exp = Rng(o.exp)

(* what a report says: what was found, where, and everything expected (in any *)
(* order); all in code points                                                 *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Ascii, k, k) : k \in 1..95} |-> 31 + CHOOSE k \in 1..95 : SubSeq(Ascii, k, k) = c]
CPs(s) == [k \in 1..Len(s) |-> IF SubSeq(s, k, k) = "\t" THEN 9 ELSE CodeOf[SubSeq(s, k, k)]]
NameOf(t) == IF t = End THEN CPs("AAEnd") ELSE G.show[t]
HasAt(s, k, z) == k + Len(z) - 1 <= Len(s) /\ SubSeq(s, k, k + Len(z) - 1) = z
RECURSIVE Listed(_, _, _)
Listed(s, k, S) ==      \* s from k on is a list of the tokens S and a full stop
    IF S = {} THEN k = Len(s) /\ s[k] = 46
    ELSE \E t \in S : LET n == NameOf(t)
                         j == k + Len(n)
                     IN  /\ HasAt(s, k, n)
                         /\ IF S = {t} THEN Listed(s, j, {})
                            ELSE HasAt(s, j, <<44, 32>>) /\ Listed(s, j + 2, S \ {t})
RECURSIVE NameList(_)
NameList(ts) == IF Len(ts) = 1 THEN NameOf(ts[1]) ELSE NameOf(ts[1]) \o <<44, 32>> \o NameList(Tail(ts))
Says(w, o) ==
    LET loc == CPs(LocStr(w.label, w.line, w.off))
        head == (CASE w.k = "tok" -> CPs("Syntax error: ") \o NameOf(TokOf(w)) \o <<40>> \o w.lex \o CPs(") at ")
                   [] w.k = "unx" -> CPs("Lexical error: Unexpected text ") \o w.lex \o CPs(" at  ")
                   [] OTHER -> CPs("Lexical error: Unexpected text [") \o NameList(o.t) \o CPs("] ") \o w.lex \o CPs(" at  "))
                \o loc \o CPs(" expected ")
    IN  ~o.died /\ HasAt(o.msg, 1, head) /\ Listed(o.msg, Len(head) + 1, w.exp)
(* by default every message is written to standard error as a line of its own *)
RECURSIVE Written(_, _, _)
Written(s, k, os) ==
    IF os = <<>> THEN k = Len(s) + 1
    ELSE HasAt(s, k, os[1].w.msg \o <<10>>) /\ Written(s, k + Len(os[1].w.msg) + 1, Tail(os))
Reports == SelectSeq(C.ev, LAMBDA o : o.e = "rep" /\ o.w.k # "amb")

EvSame(e, o) ==
    /\ e.e = o.e
    /\ CASE e.e = "s"   -> WSame(e.w, o.w) /\ e.id = o.id
         [] e.e = "r"   -> e.l = o.l /\ e.n = o.n /\ e.rhs = o.rhs /\ e.act = o.act /\ e.init = o.init
                           /\ e.args = o.args /\ e.id = o.id
         [] e.e = "rep" -> WESame(e.w, o.w) /\ Says(e.w, o.w)
         [] e.e = "e"   -> WESame(e.w, o.w) /\ e.id = o.id
         [] e.e = "z"   -> e.ok = o.ok /\ (e.ok \/ WESame(e.w, o.w))
         [] OTHER       -> FALSE

(* which properties the difference between e (specified) and o contradicts    *)
Verdict(m, e, o) ==
    LET s == TopOf(m.st)
        c == Cur(L, m.S)
        cell == IF m.ph = "go" /\ c.k = "tok" THEN CellProps(s, TokOf(c)) ELSE {}
        inj == IF m.injd THEN {"C10"} ELSE {}
        c1 == IF NoRaw /\ ~UsesErr(G) THEN {"C01"} ELSE {}
        ks == {e.e, o.e}
    IN  IF o.e = "p" THEN {"C09"} \cup (IF m.res # <<>> THEN {"C08"} ELSE {}) \cup inj
        ELSE IF m.res = <<>>
        THEN CASE e.e = "s" /\ o.e = "s" -> {"C02"} \cup inj
               [] e.e = "r" /\ o.e = "r" ->
                    IF e.l = o.l /\ e.n = o.n /\ e.act = o.act THEN {"C02"} ELSE {"C02"} \cup cell \cup inj
               [] e.e = "rep" /\ o.e = "rep" -> {"C07"} \cup inj
               [] "rep" \in ks -> {"C07"} \cup c1 \cup cell \cup inj
               [] e.e = "z" /\ o.e = "z" -> {"C07"}
               [] OTHER -> {"C02"} \cup c1 \cup cell \cup inj
        ELSE CASE e.e = "rep" /\ o.e = "rep" -> {"C07"} \cup inj
               [] "rep" \in ks -> {"C07", "C08"} \cup inj
               [] e.e = "z" /\ o.e = "z" -> {"C07"}
               [] OTHER -> {"C08"} \cup cell \cup inj

RunInit == [m |-> Start0(L, C.t, C.l, C.inj), at |-> 1, free |-> 0, over |-> FALSE]

RunStep ==
    LET mv == Move(G, B, L, x.m)
        o == C.ev[x.at]
    IN  IF x.free > 0
        THEN \* the code did not end its parse: does the specification?
             IF x.m.ph = "done" THEN Blame({"C09"}, x.at, "does not end", "l") /\ x' = [x EXCEPT !.over = TRUE]
             ELSE IF x.free > 400 THEN Blame(IF NoRaw THEN {"C09"} ELSE {}, x.at, "does not end", "l") /\ x' = [x EXCEPT !.over = TRUE]
             ELSE x' = [x EXCEPT !.m = mv.m, !.free = @ + 1]
        ELSE IF x.at > Len(C.ev)
        THEN Blame({"C09"}, x.at, "cut off", "") /\ x' = [x EXCEPT !.over = TRUE]
        ELSE IF o.e = "l" THEN x' = [x EXCEPT !.free = 1]
        ELSE IF EvSame(mv.ev, o)
        THEN /\ Blame(IF mv.m.ph # "done" \/ Written(C.err, 1, Reports) THEN {} ELSE {"C07"}, x.at, "written", C.err)
             /\ x' = [x EXCEPT !.m = mv.m, !.at = @ + 1, !.over = (mv.m.ph = "done")]
        ELSE LET last == C.ev[Len(C.ev)].e
             IN  /\ Blame(Verdict(x.m, mv.ev, o) \cup (IF last = "p" THEN {"C09"} ELSE {}), x.at, mv.ev, o)
                 \* (a parse that went wrong before is no less to end)
                 /\ x' = IF last = "l" THEN [x EXCEPT !.m = mv.m, !.free = 1] ELSE [x EXCEPT !.over = TRUE]

-----------------------------------------------------------------------------
(* conflict numbers: C.sr, C.rr declared; C.isr, C.irr ignored; C.r outcome   *)
CntStep ==
    LET want == IF ~C.isr /\ B.nsr # C.sr THEN <<"sr", B.nsr, C.sr>>
                ELSE IF ~C.irr /\ B.nrr # C.rr THEN <<"rr", B.nrr, C.rr>>
                ELSE <<"ok", 0, 0>>
        free == NoRaw /\ C.sr = 0 /\ C.rr = 0
        bare == Len(G.lines) = 0 /\ ~UsesErr(G) /\ ~AnyPred
        refused == C.r[1] # "ok"
        dead == C.r[1] \notin {"ok", "sr", "rr"}
    IN  /\ Blame(IF C.r = want THEN {}
                 ELSE IF dead THEN {"C18"} \cup (IF free THEN {"C03"} ELSE {})
                 ELSE {"C05"} \cup (IF free /\ refused THEN {"C03"} ELSE {})
                      \cup (IF bare /\ ~NoRaw /\ C.sr = 0 /\ C.rr = 0 /\ ~C.isr /\ ~C.irr THEN {"C03"} ELSE {})
                      \cup (IF "sr" \in {C.r[1], want[1]} /\ Len(G.lines) > 0 THEN {"C04"} ELSE {})
                      \cup (IF "rr" \in {C.r[1], want[1]} THEN {"C06"} ELSE {}),
                 0, want, C.r)
        /\ x' = [x EXCEPT !.over = TRUE]

-----------------------------------------------------------------------------
(* languages: C.acc accepted sequences of at most C.n tokens; C.extra longer  *)
(* sequences with C.got 1 (accepted) or 0                                     *)
LangStep ==
    LET A == Rng(C.acc)
        W == Language(G, C.n)
        D == (A \ W) \cup (W \ A)
        bad == {k \in 1..Len(C.extra) : C.got[k] \in {0, 1} /\ (Derives(G, C.extra[k]) # (C.got[k] = 1))}
        odd == {C.got[k] : k \in 1..Len(C.got)} \cup {C.odd[k] : k \in 1..Len(C.odd)}
    IN  /\ Blame(IF D = {} THEN {} ELSE {"C01"}, C.n, "language", IF D = {} THEN 0 ELSE CHOOSE d \in D : TRUE)
        /\ Blame(IF bad = {} THEN {} ELSE {"C01"}, 0, "sentence", IF bad = {} THEN 0 ELSE C.extra[CHOOSE k \in bad : TRUE])
        /\ Blame((IF 2 \in odd THEN {"C07"} ELSE {}) \cup (IF 3 \in odd THEN {"C09"} ELSE {}), 0, "odd", odd)
        /\ x' = [x EXCEPT !.over = TRUE]

-----------------------------------------------------------------------------
(* reports: C.rep as read from the report, C.dump the tables of the parser    *)
(* that was generated along with it; state numbers are those printed          *)
Sgn(a, b) == IF a < b THEN 1 ELSE IF a > b THEN 2 ELSE 3
Orderly(S, lev(_)) ==    \* S: << symbol, assoc, number >>; numbers in the order of the levels
    \A a, b \in S : Sgn(a[3], b[3]) = Sgn(lev(a[1]), lev(b[1]))
RepSyms(r) ==
    LET T == Rng(r.toks) \cup Rng(r.tags)
        lev(z) == IF z = End THEN 0 ELSE LineOf(G, z)
        Fs == FirstSets(G)
        Ns == NullableOf(Prods(G))
        dom == Toks(G) \cup UNION {Rng(G.lines[k].s) : k \in 1..Len(G.lines)}
    IN  /\ {a[1] : a \in T} = dom
        /\ Cardinality(T) = Cardinality(dom)
        /\ Orderly(T, lev)
        /\ \A a \in T : a[2] = (IF a[1] = End THEN "N" ELSE AssocOf(G, a[1]))
        /\ {a[1] : a \in Rng(r.nts)} = NonTerms(G)
        /\ \A a \in Rng(r.nts) : Rng(a[2]) = Fs[a[1]] /\ a[3] = (a[1] \in Ns)
(* productions are listed in any order; guards are present where declared     *)
RepProds(r) ==
    LET P == Prods(G)
        lev(z) == IF z > 0 THEN LineOf(G, z) ELSE 0
        T == {<<ProdSym(P[k]), r.prods[k].a, r.prods[k].p>> : k \in 1..Len(P)}
    IN  /\ Len(r.prods) = Len(P)
        /\ \A k \in 1..Len(P) : /\ r.prods[k].l = P[k].l /\ r.prods[k].r = P[k].r
                                /\ r.prods[k].g = (P[k].pk # "none")
                                /\ r.prods[k].a = ProdAssoc(G, P[k])
        /\ Orderly(T \cup Rng(r.toks), lev)
RepRed(r, c, k) ==     \* the reduction c of the parser is production k of the report
    LET p == r.prods[k]
    IN  IF c.k = "acc" THEN p.l = Start
        ELSE c.k = "r" /\ c.l = p.l /\ c.n = Len(p.r)
             /\ (c.act > 0 => G.prods[c.act].l = p.l /\ G.prods[c.act].r = p.r)
RepState(r, d, i) ==
    LET o == d.st[i]
        js == {j \in 1..Len(r.st) : r.st[j].id = o.id}
        s == r.st[CHOOSE j \in js : TRUE]
        idOf(k) == d.st[k].id
    IN  /\ Cardinality(js) = 1
        /\ Rng(s.go) = {<<o.g[k][1], idOf(o.g[k][2])>> : k \in 1..Len(o.g)}
        /\ Rng(s.sh) = {<<t, idOf(o.a[t + 1].to)>> : t \in {u \in Toks(G) : o.a[u + 1].k = "s"}}
        /\ \A t \in Toks(G) :
              LET rd == SelectSeq(s.red, LAMBDA e : e[1] = t)
                  c == o.a[t + 1]
                  n == Len(c.ch) + (IF c.k \in {"r", "acc"} THEN 1 ELSE 0)
              IN  /\ Len(rd) = n
                  /\ \A k \in 1..n : RepRed(r, IF k <= Len(c.ch) THEN c.ch[k] ELSE c, rd[k][2])
        /\ (o.eg # 0 => s.rec = idOf(o.eg))
(* the items of a state tell which of the automaton's it is; those complete   *)
(* show the look-aheads left to them, the others all that may follow them;    *)
(* and the conflicts listed are those no precedence settled                   *)
ItemsOf(st) == {It(w[1], w[2]) : w \in Rng(st.it)}
Stands(r, s) == {j \in 1..Len(r.st) : ItemsOf(r.st[j]) = B.I[s]}
RepItems(r, s) ==
    LET want == {<<PofI(it), DofI(it), IF Complete(B.P, it) THEN B.R[s].la[PofI(it)] ELSE B.la0[s][it]>> : it \in B.I[s]}
        here == Stands(r, s)
        whole(p) == B.la0[s][It(p, Len(B.P[p].r))]      \* what a complete production had before anything was settled
        left(p) == B.R[s].la[p]                          \* and what is left to it
        named(k) == {p \in DOMAIN B.R[s].la : r.same[p] = k}
        ok(st) == /\ Len(st.it) = Cardinality(want)
                  /\ {<<w[1], w[2], Rng(w[3])>> : w \in Rng(st.it)} = want
                  /\ Len(st.cs) = Cardinality(B.R[s].dsr)
                  /\ {<<w[1], w[3]>> : w \in Rng(st.cs)} = {<<c[1], r.same[c[2]]>> : c \in B.R[s].dsr}
                  /\ \A w \in Rng(st.cs) : \E p \in named(w[3]) : Rng(w[4]) = whole(p)
                  /\ Len(st.cr) = Cardinality(B.R[s].drr)
                  /\ {<<Rng(w[1]), w[2]>> : w \in Rng(st.cr)} = {<<c[3], <<r.same[c[1]], r.same[c[2]]>>>> : c \in B.R[s].drr}
                  /\ \A w \in Rng(st.cr) : \A k \in 1..2 : \E p \in named(w[2][k]) : Rng(w[3][k]) = left(p)
    IN  Cardinality(here) = 1 /\ \A j \in here : ok(r.st[j])
(* what a state is said to do                                                 *)
RepActs(r, s) ==
    LET ps == DOMAIN B.R[s].la
        rec == ErrGoto(B, s)
        ok(st) == /\ {w[1] : w \in Rng(st.sh)} = B.R[s].sh /\ Len(st.sh) = Cardinality(B.R[s].sh)
                  /\ {w[1] : w \in Rng(st.go)} = {X \in DOMAIN B.T[s] : ~IsTok(X)} /\ Len(st.go) = Cardinality({X \in DOMAIN B.T[s] : ~IsTok(X)})
                  /\ {<<w[1], w[2]>> : w \in Rng(st.red)} = UNION {{<<t, r.same[p]>> : t \in B.R[s].la[p]} : p \in ps}
                  /\ Len(st.red) = Cardinality(UNION {{<<t, p>> : t \in B.R[s].la[p]} : p \in ps})
                  /\ (st.rec = -1) = (rec = 0)
                  /\ rec # 0 => Rng(st.rla) = Expected(B, rec)
    IN  \A j \in Stands(r, s) : ok(r.st[j])
(* the numbers of states: those shown and those of the states shown are the   *)
(* same for the same state only                                               *)
RepNums(r, S) ==
    LET nums(s, st) == {<<st.id, s>>} \cup {<<w[2], B.T[s][w[1]]>> : w \in Rng(st.sh) \cup Rng(st.go)} \cup {<<w[2], B.T[s][w[1]]>> : w \in Rng(st.cs)}
                       \cup (IF st.rec = -1 THEN {} ELSE {<<st.rec, ErrGoto(B, s)>>})
        all == UNION {UNION {nums(s, r.st[j]) : j \in Stands(r, s)} : s \in S}
    IN  \A a, b \in all : (a[1] = b[1]) = (a[2] = b[2])
RepStep ==
    LET r == C.rep
        astray == {s \in 1..B.n : ~RepItems(r, s) \/ ~RepActs(r, s)}
        ids == {r.st[j].id : j \in 1..Len(r.st)}
        bad == {i \in 1..Len(C.dump.st) : ~RepState(r, C.dump, i)}
    IN  /\ Blame(IF RepSyms(r) THEN {} ELSE {"C23"}, 0, "symbols", 0)
        /\ Blame(IF RepProds(r) THEN {} ELSE {"C23"}, 0, "productions", 0)
        /\ Blame(IF bad = {} THEN {} ELSE {"C23"}, 0, "states", bad)
        /\ Blame(IF astray = {} THEN {} ELSE {"C23"}, 0, "items", <<astray, IF astray = {} THEN {} ELSE B.I[MinOf(astray)]>>)
        /\ Blame(IF Cardinality(ids) = Len(r.st) /\ Len(r.st) = B.n THEN {} ELSE {"C23"}, B.n, "number of states", Len(r.st))
        /\ Blame(IF astray # {} \/ RepNums(r, 1..B.n) THEN {} ELSE {"C23"}, 0, "numbers of states", 0)
        /\ x' = [x EXCEPT !.over = TRUE]

(* what is said when a specification is refused for conflicts of a kind (C.c  *)
(* "sr" or "rr"): the states that have unsettled ones of that kind, no other  *)
ConfStep ==
    LET r == C.rep
        S == {s \in 1..B.n : (IF C.c = "sr" THEN B.R[s].dsr ELSE B.R[s].drr) # {}}
        astray == {s \in S : ~RepItems(r, s) \/ ~RepActs(r, s)}
    IN  /\ Blame(IF astray = {} THEN {} ELSE {"C26"}, 0, "conflicting states", <<astray, IF astray = {} THEN {} ELSE B.I[MinOf(astray)]>>)
        /\ Blame(IF Len(r.st) = Cardinality(S) THEN {} ELSE {"C26"}, Cardinality(S), "number of states", Len(r.st))
        /\ Blame(IF astray # {} \/ RepNums(r, S) THEN {} ELSE {"C26"}, 0, "numbers of states", 0)
        /\ x' = [x EXCEPT !.over = TRUE]

-----------------------------------------------------------------------------
(* two parsers: C.a and C.b as dumped.  They behave identically if there is a *)
(* one-to-one correspondence of states, and one of productions, under which   *)
(* every action, goto, expected set and recovery is the same.                 *)
IsoInit == [todo |-> <<<<1, 1>>>>, map |-> (1 :> 1), pm |-> <<>>, over |-> FALSE]
(* extends a one-to-one map f by S (a set of pairs); [f, ok]                  *)
RECURSIVE Extend(_, _)
Extend(f, S) ==
    IF S = {} THEN [f |-> f, ok |-> TRUE]
    ELSE LET e == CHOOSE e \in S : TRUE
         IN  IF e[1] \in DOMAIN f
             THEN IF f[e[1]] = e[2] THEN Extend(f, S \ {e}) ELSE [f |-> f, ok |-> FALSE]
             ELSE IF \E k \in DOMAIN f : f[k] = e[2] THEN [f |-> f, ok |-> FALSE]
             ELSE Extend(MapPut(f, e[1], e[2]), S \ {e})
CellIso(c, d) == /\ c.k = d.k /\ c.l = d.l /\ c.n = d.n /\ c.act = d.act
                 /\ Len(c.ch) = Len(d.ch)
                 /\ \A k \in 1..Len(c.ch) : c.ch[k].k = d.ch[k].k /\ c.ch[k].l = d.ch[k].l /\ c.ch[k].n = d.ch[k].n
                                             /\ c.ch[k].act = d.ch[k].act
CellPids(c, d) == (IF c.k = "r" THEN {<<c.id, d.id>>} ELSE {})
                  \cup {<<c.ch[k].id, d.ch[k].id>> : k \in {q \in 1..Len(c.ch) : c.ch[q].k = "r"}}
IsoStep ==
    LET i == x.todo[1][1]
        j == x.todo[1][2]
        a == C.a.st[i]
        b == C.b.st[j]
        T == 1..Len(a.a)
        bad == {t \in T : ~CellIso(a.a[t], b.a[t])}
        ga == {a.g[k][1] : k \in 1..Len(a.g)}
        gb == {b.g[k][1] : k \in 1..Len(b.g)}
        to(z, n) == CHOOSE q \in {z[k] : k \in 1..Len(z)} : q[1] = n
        es == {<<a.a[t].to, b.a[t].to>> : t \in {u \in T \ bad : a.a[u].k = "s"}}
              \cup {<<to(a.g, n)[2], to(b.g, n)[2]>> : n \in ga \cap gb}
              \cup (IF a.eg # 0 /\ b.eg # 0 THEN {<<a.eg, b.eg>>} ELSE {})
        m == Extend(x.map, es)
        p == Extend(x.pm, UNION {CellPids(a.a[t], b.a[t]) : t \in T \ bad})
        new == {e \in es : e[1] \notin DOMAIN x.map /\ m.ok}
        exp == Rng(a.exp) = Rng(b.exp)
        eg == (a.eg = 0) = (b.eg = 0)
        fin == IF Len(x.todo) = 1 /\ new = {}
               THEN \A t \in T : {m.f[s] : s \in Rng(C.a.via[t]) \cap DOMAIN m.f} = Rng(C.b.via[t])
                    /\ Len(C.a.st) = Len(C.b.st)
               ELSE TRUE
        ok == bad = {} /\ ga = gb /\ m.ok /\ p.ok /\ exp /\ eg /\ fin
    IN  IF i > Len(C.a.st) \/ j > Len(C.b.st) \/ i = 0 \/ j = 0
        THEN Blame({C.prop}, 0, "a state out of range", <<i, j>>) /\ x' = [x EXCEPT !.over = TRUE]
        ELSE
        /\ Blame(IF ok THEN {} ELSE {C.prop}, <<a.id, b.id>>, "behave differently",
                 [actions |-> bad, gotos |-> ga = gb, states |-> m.ok, productions |-> p.ok, expected |-> exp, error |-> eg, recovery |-> fin])
        /\ x' = IF ~ok THEN [x EXCEPT !.over = TRUE]
                ELSE [x EXCEPT !.map = m.f, !.pm = p.f, !.todo = Tail(@) \o SetToSeq(new),
                               !.over = (Len(x.todo) = 1 /\ new = {})]

(* two runs of such parsers on the same text, production numbers aside        *)
EvIso(e, d) == /\ e.e = d.e
               /\ e.e = "r" => e.l = d.l /\ e.n = d.n /\ e.act = d.act /\ e.args = d.args /\ e.init = d.init /\ e.id = d.id
               /\ e.e \in {"s", "e", "rep"} => e.w = d.w
               /\ e.e = "z" => e.ok = d.ok
SameStep ==
    LET n == IF Len(C.a) < Len(C.b) THEN Len(C.a) ELSE Len(C.b)
        bad == {k \in 1..n : ~EvIso(C.a[k], C.b[k])}
    IN  /\ Blame(IF bad = {} /\ Len(C.a) = Len(C.b) THEN {} ELSE {C.prop}, IF bad = {} THEN n + 1 ELSE CHOOSE k \in bad : \A q \in bad : k <= q,
                 "run differently", 0)
        /\ x' = [x EXCEPT !.over = TRUE]

(* a parser that works: nothing in its tables or runs panics, and every       *)
(* reduction in its tables is of a production it knows                        *)
WorkStep ==
    LET Fine(c) == c.k # "pan" /\ (c.k = "r" => c.l \in NonTerms(G) \cup {Err}) /\ (c.k = "s" => c.to > 0)
        bad == {i \in 1..Len(C.dump.st) : \E k \in 1..Len(C.dump.st[i].a) :
                   LET c == C.dump.st[i].a[k] IN ~Fine(c) \/ \E q \in 1..Len(c.ch) : ~Fine(c.ch[q])}
        pan == {k \in 1..Len(C.runs) : \E e \in Rng(C.runs[k]) : e.e = "p"}
    IN  /\ Blame(IF bad = {} /\ pan = {} THEN {} ELSE {"C17"}, 0, "does not work", <<bad, pan>>)
        /\ x' = [x EXCEPT !.over = TRUE]

(* outcomes of generation that are to be the same: C.rs                       *)
PresStep ==
    /\ Blame(IF Cardinality(Rng(C.rs)) = 1 THEN {} ELSE {C.prop}, 0, "outcomes differ", Rng(C.rs))
    /\ x' = [x EXCEPT !.over = TRUE]

-----------------------------------------------------------------------------
(* the generated lexical analyser: C.items as read by `front' until advanced  *)
(* when empty; a token prints as G.show[tag] (0: the end marker)              *)
ShowInit == [S |-> NewStream(L, C.t, ""), at |-> 1, over |-> FALSE]
ShowStep ==
    LET e == Shown(L, x.S)
        o == C.items[x.at]
        same == /\ e.k = o.k /\ e.tags = Rng(o.t) /\ e.lex = o.lex /\ e.line = o.line /\ e.off = o.off
        named == o.k = "tok" /\ Len(o.t) = 1 /\ o.t[1] \in 1..Len(G.show)
    IN  /\ Blame(IF same THEN {} ELSE {"C22"}, x.at, e, o)
        /\ Blame(IF named => o.show = G.show[o.t[1]] THEN {} ELSE {"C22"}, x.at, "shown", o)
        /\ x' = [x EXCEPT !.S = Advance(L, x.S), !.at = @ + 1,
                          !.over = ~same \/ x.at = Len(C.items)]

-----------------------------------------------------------------------------
(* what was written for one text: C.xs runs [ok, out] with the hash of the    *)
(* output ("" if none): wherever generation succeeded the output is the same, *)
(* elsewhere there is none                                                    *)
OutStep ==
    LET ok == {k \in 1..Len(C.xs) : C.xs[k].ok}
        o == {C.xs[k].out : k \in ok}
    IN  /\ Blame(IF Cardinality(o) > 1 \/ "" \in o THEN {C.prop} ELSE {}, 0, "outputs differ", o)
        /\ Blame(IF \E k \in 1..Len(C.xs) : ~C.xs[k].ok /\ C.xs[k].out # "" THEN {C.prop} ELSE {}, 0, "output of a failed run", o)
        /\ x' = [x EXCEPT !.over = TRUE]

-----------------------------------------------------------------------------
Init == /\ ci \in 1..Len(Cases)
        /\ x = CASE C.k = "tab" -> TabInit
                 [] C.k = "run" -> RunInit
                 [] C.k = "show" -> ShowInit
                 [] C.k = "iso" -> IsoInit
                 [] OTHER       -> [over |-> FALSE]
Finished == IF C.k = "tab" THEN x.todo = <<>> ELSE x.over
Next == /\ ~Finished
        /\ ci' = ci
        /\ CASE C.k = "tab"  -> TabStep
             [] C.k = "run"  -> RunStep
             [] C.k = "cnt"  -> CntStep
             [] C.k = "lang" -> LangStep
             [] C.k = "out"  -> OutStep
             [] C.k = "rep"  -> RepStep
             [] C.k = "conf" -> ConfStep
             [] C.k = "show" -> ShowStep
             [] C.k = "iso"  -> IsoStep
             [] C.k = "same" -> SameStep
             [] C.k = "pres" -> PresStep
             [] C.k = "work" -> WorkStep

Count == Finished => TLCSet(1, TLCGet(1) + 1)
Post == PrintT(<<"CASES", TLCGet(1), Len(Cases)>>)
ASSUME TLCSet(1, 0)
=============================================================================
