------------------------------ MODULE SpecLang ------------------------------
(* The specification language as its generators read it.                      *)
(*                                                                            *)
(* "doc": a document is a sequence of declarations, each with the place of    *)
(* what it names.  Reading it builds a symbol table; a declaration that       *)
(* contradicts what is known is a fault at its own place.  A fault puts what  *)
(* it declared in doubt: contradictions of something doubtful may or may not  *)
(* be diagnosed, all others must be, and nothing else may.                    *)
(*   tok  n name, s source, p pattern, lit, bad (malformed); places at, pat   *)
(*   skip p, bad; pat        prec xs: [lit, s, at]     num bad; at            *)
(*   head n; at              sym lit/err, s; at        use lit, s; at (%prec) *)
(*   inj (of a file that cannot be read); at                                  *)
(* A diagnostic names what it is about and, where a fault is a contradiction, *)
(* the place of what it contradicts: "says" collects <<at, names, places>>.   *)
(*                                                                            *)
(* "syn": a sequence of tokens is parsed with the tables of the grammar that  *)
(* documents the language (built by Lalr); the first token that no document   *)
(* continuing what was read so far could have is the error.                   *)
EXTENDS Lalr, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.CASES)
GS == Input.gs
Cases == Input.cases
ASSUME \A g \in 1..Len(GS) : TLCSet(10 + g, TLCEval(Build(GS[g])))

VARIABLES ci, x
vars == <<ci, x>>
C == Cases[ci]
Blame(props, at, what, o) == \A p \in props : PrintT(<<"BLAME", p, C.id, at, what, o>>)

-----------------------------------------------------------------------------
DocInit == [at |-> 1, tok |-> <<>>, pats |-> {}, lits |-> <<>>, skips |-> {}, tags |-> <<>>, set |-> {},
            heads |-> <<>>, uses |-> {}, used |-> {}, tused |-> {}, dt |-> {}, dn |-> {}, dp |-> {}, dl |-> {},
            must |-> {}, may |-> {}, says |-> {}, clash |-> {}, over |-> FALSE]

Reserved(d) == d.res          \* the name begins with the letters kept for generated code

Put(f, k, v) == TLCEval((k :> v) @@ f)
Must(y, c, at) == IF c THEN [y EXCEPT !.must = @ \cup {at}] ELSE y
Says(y, c, at, ws, ps) == IF c THEN [y EXCEPT !.says = @ \cup {<<at, ws, ps>>}] ELSE y
Owner(y, p) == CHOOSE n \in DOMAIN y.tok : n \notin y.dn /\ y.tok[n].p = p
May(y, c, at)  == IF c THEN [y EXCEPT !.may = @ \cup {at}] ELSE y

TokDecl(y, d) ==
    LET dupn == d.n \in DOMAIN y.tok
        empty == d.lit /\ d.p = ""
        dupp == d.p \in y.pats
        faulty == dupn \/ empty \/ dupp \/ d.p \in y.dp
        sure == (dupn /\ d.n \notin y.dn) \/ (~dupn /\ (empty \/ dupp))
        y1 == May(Must(y, sure, d.at), faulty, d.at)
        y2 == Must(y1, d.bad, d.pat)
        y3 == IF ~sure THEN y2
              ELSE IF dupn THEN Says(y2, TRUE, d.at, {d.n}, {y.tok[d.n].at})
              ELSE IF empty THEN Says(y2, TRUE, d.at, {d.n}, {})
              ELSE Says(y2, d.p \notin y.dp, d.at, {Owner(y, d.p)}, {y.tok[Owner(y, d.p)].at})
    IN  [y3 EXCEPT !.tok = Put(@, d.n, [p |-> d.p, at |-> d.at]),
                   !.clash = IF Reserved(d) THEN @ \cup {<<d.n, d.at>>} ELSE @,
                   !.dn = IF faulty THEN @ \cup {d.n} ELSE @,
                   !.dp = IF faulty THEN @ \cup {d.p} \cup (IF dupn THEN {y.tok[d.n].p} ELSE {}) ELSE @,
                   !.pats = IF faulty THEN @ \ ({d.p} \cup (IF dupn THEN {y.tok[d.n].p} ELSE {})) ELSE @ \cup {d.p},
                   !.dl = IF faulty /\ d.lit /\ d.s \notin DOMAIN y.lits THEN @ \cup {d.s} ELSE @,
                   !.lits = IF d.lit /\ ~faulty THEN Put(@, d.s, d.n) ELSE @]

SkipDecl(y, d) ==
    LET sure == d.p \in y.skips \/ d.p \in y.pats
        y0 == IF d.p \in y.skips THEN Says(y, TRUE, d.pat, {d.p}, {})
              ELSE Says(y, sure /\ d.p \notin y.dp, d.pat, {Owner(y, d.p)}, {y.tok[Owner(y, d.p)].at})
        y1 == May(Must(Must(y0, d.bad, d.pat), sure, d.pat), d.p \in y.dp, d.pat)
    IN  IF sure \/ d.p \in y.dp THEN y1 ELSE [y1 EXCEPT !.skips = @ \cup {d.p}]

KnownLit(y, s) == s \in DOMAIN y.lits
DoubtTok(y, n) == n \in y.dn \/ y.tok[n].p \in y.dp
DoubtLit(y, s) == s \in y.dl \/ (KnownLit(y, s) /\ DoubtTok(y, y.lits[s]))

RECURSIVE PrecItems(_, _, _)
PrecItems(y, xs, new) ==
    IF xs = <<>> THEN [y EXCEPT !.set = @ \cup new]
    ELSE LET e == xs[1]
             nm == IF ~e.lit THEN e.s ELSE IF KnownLit(y, e.s) THEN y.lits[e.s] ELSE ""
             tokn == IF e.lit THEN KnownLit(y, e.s) ELSE e.s \in DOMAIN y.tok
             doubt == IF e.lit THEN DoubtLit(y, e.s) ELSE tokn /\ DoubtTok(y, e.s)
             twice == tokn /\ ~doubt /\ nm \in y.set
             strange == e.lit /\ ~tokn /\ e.s \notin y.dl
             again == ~e.lit /\ ~tokn /\ e.s \in DOMAIN y.tags
             y0 == Says(Says(y, twice \/ strange, e.at, {e.s}, {}), again, e.at, {e.s}, IF again /\ e.s \notin y.dt THEN {y.tags[e.s]} ELSE {})
             y1 == IF tokn \/ (e.lit /\ e.s \in y.dl)
                   THEN May(Must(y0, twice, e.at), doubt \/ nm \in new, e.at)
                   ELSE IF e.lit THEN Must(y0, TRUE, e.at)
                   ELSE [Must(y0, again, e.at) EXCEPT
                            !.dt = IF again THEN @ \cup {e.s} ELSE @,
                            !.tags = IF e.s \in DOMAIN y.tags THEN @ ELSE Put(@, e.s, e.at),
                            !.clash = IF e.res THEN @ \cup {<<e.s, e.at>>} ELSE @]
         IN  PrecItems(y1, Tail(xs), IF tokn THEN new \cup {nm} ELSE new)

HeadDecl(y, d) ==
    IF d.n \in DOMAIN y.tok
    THEN Says(Must(y, TRUE, d.at), TRUE, d.at, {d.n}, IF DoubtTok(y, d.n) THEN {} ELSE {y.tok[d.n].at})
    ELSE [y EXCEPT !.heads = IF d.n \in DOMAIN @ THEN @ ELSE Put(@, d.n, d.at)]

Unknown(y, d) == Says(Must(y, TRUE, d.at), TRUE, d.at, {d.s}, {})

SymUse(y, d) ==
    IF d.err THEN y
    ELSE IF d.lit THEN
        IF KnownLit(y, d.s) THEN [y EXCEPT !.used = @ \cup {y.lits[d.s]}]
        ELSE IF d.s \in y.dl THEN May(y, TRUE, d.at) ELSE Unknown(y, d)
    ELSE IF d.s \in DOMAIN y.tok THEN [y EXCEPT !.used = @ \cup {d.s}]
    ELSE [y EXCEPT !.uses = @ \cup {<<d.s, d.at>>}]

PrecUse(y, d) ==
    IF d.lit THEN IF KnownLit(y, d.s) THEN y ELSE IF d.s \in y.dl THEN May(y, TRUE, d.at) ELSE Unknown(y, d)
    ELSE IF d.s \in DOMAIN y.tags THEN [y EXCEPT !.tused = @ \cup {d.s}]
    ELSE IF d.s \in DOMAIN y.tok THEN y ELSE Unknown(y, d)

Decl(y, d) ==
    CASE d.d = "tok"  -> TokDecl(y, d)
      [] d.d = "skip" -> SkipDecl(y, d)
      [] d.d = "prec" -> PrecItems(y, d.xs, {})
      [] d.d = "head" -> HeadDecl(y, d)
      [] d.d = "sym"  -> SymUse(y, d)
      [] d.d = "use"  -> PrecUse(y, d)
      [] d.d = "num"  -> Must(y, d.bad, d.at)
      [] d.d = "inj"  -> Must(y, TRUE, d.at)

(* what is to be warned of in a document without faults: <<name, place, why>> *)
Warnings(y, start) ==
    {<<n, y.tok[n].at, "unused">> : n \in {k \in DOMAIN y.tok : k \notin y.used}}
    \cup {<<n, y.tags[n], "unused">> : n \in {k \in DOMAIN y.tags : k \notin y.tused}}
    \cup {<<n, y.heads[n], "unused">> : n \in {k \in DOMAIN y.heads : k # start /\ ~\E u \in y.uses : u[1] = k}}
    \cup {<<c[1], c[2], "clash">> : c \in y.clash}
(* each warned of once *)
Warned(ws, exp) ==
    LET places == {w[2] : w \in exp} \cup {ws[i].at : i \in DOMAIN ws}
    IN  {a \in places : LET here == {i \in DOMAIN ws : ws[i].at = a}
                            due == {w \in exp : w[2] = a}
                        IN  Cardinality(here) # Cardinality(due)
                            \/ \E w \in due : \E i \in here : w[1] \notin Rng(ws[i].w)}

DocStep ==
    IF x.at <= Len(C.ds) THEN x' = [Decl(x, C.ds[x.at]) EXCEPT !.at = @ + 1]
    ELSE LET undef == {v \in x.uses : v[1] \notin DOMAIN x.heads}
             must == x.must \cup {u[2] : u \in undef}
             says == x.says \cup {<<u[2], {u[1]}, {}>> : u \in undef}
             errs == {C.errs[i].at : i \in DOMAIN C.errs}
             refused == C.r \in {"undefined", "errors"}
             start == LET hs == {k \in 1..Len(C.ds) : C.ds[k].d = "head"} IN C.ds[MinOf(hs)].n
             mute == {u \in says : u[1] \in errs /\ ~\E i \in DOMAIN C.errs :
                          C.errs[i].at = u[1] /\ u[2] \subseteq Rng(C.errs[i].w) /\ u[3] \subseteq Rng(C.errs[i].p)}
             due == Warnings(x, start)
         IN  /\ Blame(IF must \subseteq errs THEN {} ELSE {"C18"}, 0, "not diagnosed", must \ errs)
             /\ Blame(IF errs \subseteq must \cup x.may THEN {} ELSE {"C18"}, 0, "diagnosed without fault", errs \ (must \cup x.may))
             /\ Blame(IF mute = {} THEN {} ELSE {"C18"}, 0, "diagnosis does not say what it is about", mute)
             /\ Blame(IF must # {} => refused THEN {} ELSE {"C18"}, 0, "not refused", C.r)
             /\ Blame(IF must = {} => C.r \in {"ok", "sr", "rr"} THEN {} ELSE {"C18"}, 0, "refused", C.r)
             /\ Blame(IF must # {} => ~C.wrote THEN {} ELSE {"C18"}, 0, "parser written", C.r)
             /\ Blame(IF must # {} \/ Warned(C.warns, due) = {} THEN {} ELSE {"C24"}, 0, "warnings",
                      <<Warned(C.warns, due), C.warns, due>>)
             /\ x' = [x EXCEPT !.over = TRUE]

-----------------------------------------------------------------------------
G == GS[C.g]
B == TLCGet(10 + C.g)
SynInit == [at |-> 1, st |-> <<1>>, over |-> FALSE]
SynEnd(what) == x' = [x EXCEPT !.over = TRUE]
TopOf(s) == s[Len(s)]
SynStep ==
    LET k == C.toks[x.at]
        s == TopOf(x.st)
        ch == Chain(B, s, k.t)
        p == IF ch # <<>> THEN ch[1] ELSE Fallback(B, s, k.t)
        shifts == k.t >= 0 /\ k.t \in B.R[s].sh
    IN  IF shifts THEN x' = [x EXCEPT !.at = @ + 1, !.st = Append(@, B.T[s][k.t])]
        ELSE IF k.t >= 0 /\ p = 1
        THEN /\ Blame(IF C.r # "syntax" THEN {} ELSE Rng(C.props), 0, "sound document refused", C.seen)
             /\ SynEnd(0)
        ELSE IF k.t >= 0 /\ p > 1
        THEN LET st == SubSeq(x.st, 1, Len(x.st) - Len(B.P[p].r))
             IN  x' = [x EXCEPT !.st = Append(st, B.T[TopOf(st)][B.P[p].l])]
        ELSE /\ Blame(IF C.r = "syntax" /\ Len(C.seen) = 1 THEN {} ELSE Rng(C.props), x.at, "syntax error not reported", <<k, C.r, C.seen>>)
             /\ Blame(IF C.r = "syntax" /\ Len(C.seen) = 1 /\ C.seen[1].at # k.at THEN Rng(C.props) ELSE {},
                      x.at, "syntax error misplaced", <<k, C.seen>>)
             /\ Blame(IF C.r = "syntax" /\ Len(C.seen) = 1 /\ Rng(C.seen[1].exp) # Expected(B, s) THEN Rng(C.props) \cap {"C20"} ELSE {},
                      x.at, "other tokens expected", <<k, C.seen, Expected(B, s)>>)
             /\ Blame(IF C.wrote THEN {"C18"} ELSE {}, x.at, "parser written", C.r)
             /\ SynEnd(0)

-----------------------------------------------------------------------------
(* "same": what two front ends made of one text                               *)
SameStep == /\ Blame(IF Cardinality(Rng(C.rs)) = 1 THEN {} ELSE {"C20"}, 0, "outcomes differ", 0)
            /\ x' = [x EXCEPT !.over = TRUE]

-----------------------------------------------------------------------------
Init == /\ ci \in 1..Len(Cases)
        /\ x = CASE C.k = "doc" -> DocInit [] C.k = "syn" -> SynInit [] OTHER -> [over |-> FALSE]
Next == /\ ~x.over
        /\ ci' = ci
        /\ CASE C.k = "doc" -> DocStep [] C.k = "syn" -> SynStep [] OTHER -> SameStep
Finished == x.over
Count == Finished => TLCSet(1, TLCGet(1) + 1)
Post == PrintT(<<"CASES", TLCGet(1), Len(Cases)>>)
ASSUME TLCSet(1, 0)
=============================================================================
