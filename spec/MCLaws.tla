------------------------------ MODULE MCLaws ------------------------------
(***************************************************************************)
(* Model for one family of laws.                                           *)
(*  - one behaviour per identity, walking through sample points of F_P;    *)
(*    ZeroOK is the invariant "the identity holds at this point";          *)
(*  - one state per abstract configuration of the plan (Plan): the      *)
(*    cases the harness has to instantiate on the real code.               *)
(* MC_<family>.tla extends this module and the family, and its .cfg        *)
(* substitutes the family's Identities, Refuted controls, Export, Plan.    *)
(***************************************************************************)
EXTENDS Term, Json, IOUtils
CONSTANTS Identities, Refuted, Export, Plan, NSamples, Enough

VARIABLES id, n, val
vars == <<id, n, val>>

SeqOf(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>> ELSE LET e == CHOOSE e \in T : TRUE IN <<e>> \o F(T \ {e})
            IN F(S)
Tag(s, kd) == [k \in DOMAIN s |-> [n |-> s[k].n, t |-> s[k].t, kind |-> kd]]
AllIds == TLCEval(Tag(Identities, "law") \o Tag(Refuted, "control"))

Count(k) == TLCSet(k, TLCGet(k) + 1)

\* values at successive points, until Enough of them are defined
RECURSIVE Collect(_, _, _, _, _)
Collect(t, vs, k, s, got) ==
  IF s > NSamples \/ got = Enough THEN <<>>
  ELSE LET v == TLCEval(Ev(t, EnvAt(vs, s * 37 + k * 11)))
       IN <<v>> \o Collect(t, vs, k, s + 1, IF v = Undef THEN got ELSE got + 1)
Pad(s) == s \o [j \in 1..(NSamples - Len(s)) |-> Undef]

\* val is the sequence of values of identity id at all NSamples points; the
\* behaviour walks through them.
InitLaw == LET ids == AllIds IN
        \E k \in DOMAIN ids :
          LET t  == ids[k].t
              vs == SeqOf(Vars(t))
          IN /\ TLCSet(100 + k, 0)
             /\ id = <<ids[k].kind, k>>
             /\ n = 1
             /\ val = Pad(Collect(t, vs, k, 1, 0))
InitCase == \E p \in Plan : id = <<"case", <<p.cfg, p.qty>> >> /\ n = NSamples /\ val = <<>>
Init == InitLaw \/ InitCase
Next == /\ n < NSamples
        /\ n' = n + 1
        /\ UNCHANGED <<id, val>>
Spec == Init /\ [][Next]_vars

ZeroOK == id[1] = "law" => val[n] \in {0, Undef}

\* vacuity: count, per identity, the points at which it was defined, and per
\* refuted control the points at which it was (rightly) non-zero
Tally == CASE id[1] = "law"     -> (val[n] # Undef => Count(100 + id[2]))
           [] id[1] = "control" -> (val[n] \notin {0, Undef} => Count(100 + id[2]))
           [] OTHER -> TRUE

Done == LET ids == AllIds IN
        JsonSerialize(IOEnv.SPEC_OUT,
             [terms |-> Export, plan |-> Plan,
              identities |-> [k \in DOMAIN ids |->
                 [name |-> ids[k].n, kind |-> ids[k].kind, points |-> TLCGet(100 + k)]]])
===========================================================================
