----------------------------- MODULE ProcTrace -----------------------------
(* Generation seen from outside: processes, each performing generations one   *)
(* after another or several at once, of texts that may come up any number of  *)
(* times anywhere.  The state is what is known of each text; whatever was     *)
(* done before, with or beside it, a generation of the same text with the     *)
(* same options has the same outcome and writes the same parser and report;   *)
(* one that fails writes neither.                                             *)
(*   case: << event >>,  event: [p (process), c (concurrently with others),   *)
(*   t (text), o (ignore options), r (outcome), out, rep (hashes or "")]      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, at, known
vars == <<ci, at, known>>
C == Cases[ci]
Blame(props, what, o) == \A p \in props : PrintT(<<"BLAME", p, C.id, at, what, o>>)

Key(e) == <<e.t, e.o>>
Res(e) == [r |-> e.r, out |-> e.out, rep |-> e.rep]

Init == ci \in 1..Len(Cases) /\ at = 1 /\ known = <<>>
Next ==
    /\ at <= Len(C.ev)
    /\ LET e == C.ev[at]
       IN  /\ Blame(IF Key(e) \in DOMAIN known /\ known[Key(e)] # Res(e) THEN {"C17"} ELSE {},
                    IF e.c THEN "differs (concurrent)" ELSE "differs", <<e, IF Key(e) \in DOMAIN known THEN known[Key(e)] ELSE 0>>)
           /\ Blame(IF e.r = "ok" /\ (e.out = "" \/ e.rep = "") THEN {"C17"} ELSE {}, "nothing written", e)
           /\ Blame(IF e.r # "ok" /\ (e.out # "" \/ e.rep # "") THEN {"C17"} ELSE {}, "output of a failed generation", e)
           /\ known' = IF Key(e) \in DOMAIN known THEN known ELSE TLCEval((Key(e) :> Res(e)) @@ known)
    /\ at' = at + 1
    /\ UNCHANGED ci

Finished == at > Len(C.ev)
Count == Finished => TLCSet(1, TLCGet(1) + 1)
Post == PrintT(<<"CASES", TLCGet(1), Len(Cases)>>)
ASSUME TLCSet(1, 0)
=============================================================================
