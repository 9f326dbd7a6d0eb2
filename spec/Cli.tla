-------------------------------- MODULE Cli ---------------------------------
(* The generators as programs and as a library: what they read, what they     *)
(* write, what they say about it.                                             *)
(*                                                                            *)
(* A path is [d, s, e]: directory, stem and extension.  fs gives the content  *)
(* (a number) of the paths there are; DirC is a directory and FullC something *)
(* that takes no data.  K describes contents as specifications, for each      *)
(* dialect: cls "junk" (no text), "syntax", "errors", "undefined" or "sound", *)
(* and for sound ones the conflicts found (nsr, nrr), those declared          *)
(* (dsr, drr) and the contents of the parser and the report made of it.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

DirC == -1
FullC == -2

Ext(p, e) == [p EXCEPT !.e = e]
None == <<>>

(* what becomes of a specification                                            *)
Verdict(k, isr, irr) ==
    IF k.cls # "sound" THEN <<k.cls, 0, 0>>
    ELSE IF ~isr /\ k.nsr # k.dsr THEN <<"sr", k.nsr, k.dsr>>
    ELSE IF ~irr /\ k.nrr # k.drr THEN <<"rr", k.nrr, k.drr>>
    ELSE <<"ok", 0, 0>>
Reading(K, fs, p, l) ==
    IF p \notin DOMAIN fs \/ fs[p] < 1 THEN [cls |-> "unreadable"]
    ELSE K[fs[p]][l]

Writable(dirs, fs, p) == p.d \in dirs /\ (p \in DOMAIN fs => fs[p] \notin {DirC, FullC})
Put(fs, p, c) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN c ELSE fs[q]]
Drop(fs, p) == [q \in DOMAIN fs \ {p} |-> fs[q]]

Status(v) == CASE v \in {"junk", "unreadable", "syntax"} -> 2
               [] v \in {"errors", "undefined", "sr", "rr"} -> 4

(* one run of a generator: r has l (dialect), force, isr, irr, out (a path or *)
(* None), spec, use ("" or how the arguments are unusual)                     *)
OutOf(r) == IF r.out = None THEN Ext(r.spec, "rs") ELSE r.out
RepOf(r) == Ext(OutOf(r), "states")
Run(K, dirs, fs, r) ==
    LET out == OutOf(r)  rep == RepOf(r)
        res(code, f, why) == [code |-> code, fs |-> f, why |-> why,
                              names |-> CASE why[1] = "same" -> {out}             \* one of these is named in what it says
                                          [] why[1] = "exists" -> {out, rep} \cap DOMAIN fs
                                          [] why[1] = "write" -> IF code = 6 THEN {out} ELSE {out, rep}
                                          [] OTHER -> {}]
    IN  IF r.use = "help" THEN res(0, fs, <<"help", 0, 0>>)
        ELSE IF r.use # "" THEN res(1, fs, <<"usage", 0, 0>>)
        ELSE IF rep = out THEN res(1, fs, <<"same", 0, 0>>)
        ELSE IF ~r.force /\ (out \in DOMAIN fs \/ rep \in DOMAIN fs) THEN res(1, fs, <<"exists", 0, 0>>)
        ELSE LET k == Reading(K, fs, r.spec, r.l)
                 v == Verdict(k, r.isr, r.irr)
             IN  IF v[1] # "ok" THEN res(Status(v[1]), fs, v)
                 ELSE IF ~Writable(dirs, fs, out) THEN res(6, fs, <<"write", 0, 0>>)
                 ELSE LET f1 == Put(fs, out, k.code)
                      IN  IF ~Writable(dirs, f1, rep) THEN res(7, f1, <<"write", 0, 0>>)
                          ELSE res(0, Put(f1, rep, k.rep), v)

(* the library: a generator made from a path or a text (content c), whose     *)
(* parser is then written to out                                              *)
Lib(K, dirs, fs, r) ==
    LET k == IF r.how = "path" THEN Reading(K, fs, r.spec, r.l) ELSE K[r.c][r.l]
        v == Verdict(k, FALSE, FALSE)
    IN  IF v[1] # "ok" THEN [r |-> v, fs |-> fs]
        ELSE IF ~Writable(dirs, fs, r.out) THEN [r |-> <<"io", 0, 0>>, fs |-> fs]
        ELSE [r |-> v, fs |-> Put(fs, r.out, k.code)]
=============================================================================
