------------------------------ MODULE ObjectRuns ------------------------------
(***************************************************************************)
(* The abstract machine of Objects for the classes of the library: two     *)
(* objects of one class, parameters by name, values by number (0 is the    *)
(* default, 1..NForms valid values in different forms).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Catalogue
NForms == 6
Attrs(c) == DOMAIN Classes[c].attrs
Steps == {"new", "set", "via", "bad", "newbad", "query", "badq", "write", "writepts", "scribble", "call"}

\* the effect of one step on the two objects: only constructing and assigning valid values change anything
Effect(obj, e) ==
  CASE e.k = "new" -> [obj EXCEPT ![e.o] = e.vals]
    [] e.k \in {"set", "via"} -> [obj EXCEPT ![e.o] = [@ EXCEPT ![e.a] = e.v]]
    [] OTHER -> obj

\* what is demanded of an observed step; obj is the state before it
Kept(obj, e) == \A o \in 1..2 : \A a \in DOMAIN obj[o] : a \in DOMAIN e.now[o] /\ \E k \in DOMAIN e.now[o][a] : e.now[o][a][k] = obj[o][a]
\* a call of a function (or a query) with arrays in some memory layout: it succeeds, leaves its arguments alone,
\* and overwriting its result does not change the answer of the next call
CallClause(e) == IF e.out # "ok" THEN "call failed" ELSE IF ~ e.intact THEN "caller's argument modified"
                 ELSE IF e.d < 90 THEN "repeating the call gave another answer" ELSE ""
StepClause(obj, e) ==
  IF e.k = "call" THEN CallClause(e) ELSE
  LET post == Effect(obj, e) IN
  IF e.k \in {"new", "set", "via"} /\ e.out # "ok" THEN "valid value refused"
  ELSE IF e.k \in {"bad", "newbad"} /\ e.out = "ok" THEN "invalid value accepted"
  ELSE IF e.k = "badq" /\ e.out = "ok" THEN "invalid observation points accepted"
  ELSE IF e.k = "query" /\ e.out # "ok" THEN "query failed"
  ELSE IF ~ Kept(post, e)
       THEN CASE e.k \in {"bad", "newbad"} -> "refused assignment changed the object"
              [] e.k \in {"query", "badq"} -> "query changed a parameter"
              [] e.k \in {"write", "writepts", "scribble"} -> "object shares an array with its caller"
              [] OTHER -> "value not read back, or another parameter changed"
  ELSE IF ~ e.intact THEN "caller's argument modified"
  ELSE IF e.k = "query" /\ e.ids # post[e.o] THEN "harness asked for other parameters than the model's"
  ELSE IF e.k = "query" /\ e.d < 90 THEN "answer differs from that of a fresh object"
  ELSE ""
===========================================================================
