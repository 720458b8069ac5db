------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Trace specification: consumes, one event per step, the trace recorded   *)
(* from the real code.  The verdict is total: an event that the            *)
(* specification does not allow is recorded with the clause it breaks, and *)
(* the rest of the trace is still checked.                                 *)
(*                                                                         *)
(* A configuration e.cfg of the model (Planned) is instantiated with       *)
(* concrete values by the harness; e.d is the agreement of the code with   *)
(* the law of the specification in tenths of decimal digits at the worst   *)
(* component of the worst point; e.c is the number of (tenths of) digits   *)
(* that evaluating the law in double precision loses to cancellation.      *)
(***************************************************************************)
EXTENDS ConformRules, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Planned, Clause(_)

VARIABLES l, bad
tvars == <<l, bad>>

TraceInit == /\ TLCSet(11, ndJsonDeserialize(IOEnv.TRACE))
             /\ TLCSet(12, <<>>)
             /\ l = 0 /\ bad = <<>>
TraceNext == LET T == TLCGet(11) IN
             /\ l < Len(T)
             /\ l' = l + 1
             /\ LET c == Clause(T[l + 1])
                IN bad' = IF c = "" THEN bad ELSE Append(bad, [i |-> l + 1, clause |-> c])
             /\ TLCSet(12, bad')
             /\ TLCSet(13, l')
TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceDone ==
  LET T == TLCGet(11)
      P == Planned
      seen == {<<T[k].cfg, T[k].qty>> : k \in {j \in DOMAIN T : "cfg" \in DOMAIN T[j]}}
      missing == {p \in P : <<p.cfg, p.qty>> \notin seen}
  IN JsonSerialize(IOEnv.SPEC_OUT,
       [consumed |-> TLCGet(13), bad |-> TLCGet(12), planned |-> Cardinality(P),
        exercised |-> Cardinality(P) - Cardinality(missing),
        missing |-> missing])
===========================================================================
