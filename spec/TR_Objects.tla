------------------------------ MODULE TR_Objects ------------------------------
(* Trace specification of ObjectRuns: the abstract state follows the steps,   *)
(* every observation after a step is compared with it.                        *)
EXTENDS ObjectRuns, TLC, Json, IOUtils
VARIABLES l, bad, obj
tvars == <<l, bad, obj>>
TInit == /\ TLCSet(11, ndJsonDeserialize(IOEnv.TRACE)) /\ TLCSet(12, <<>>) /\ TLCSet(13, 0)
         /\ l = 0 /\ bad = <<>> /\ obj = << <<>>, <<>> >>
TNext == LET T == TLCGet(11)
             e == T[l + 1]
             pre == IF e.step = 1 THEN << <<>>, <<>> >> ELSE obj
             c == StepClause(pre, e)
         IN /\ l < Len(T)
            /\ l' = l + 1
            /\ obj' = Effect(pre, e)
            /\ bad' = IF c = "" THEN bad ELSE Append(bad, [i |-> l + 1, clause |-> c])
            /\ TLCSet(12, bad') /\ TLCSet(13, l')
TSpec == TInit /\ [][TNext]_tvars
\* which cases were exercised
Key(e) == IF e.k \in {"bad", "newbad", "badq", "call"} THEN <<e.cls, e.k, e.a, e.q>> ELSE <<e.cls, e.k, "", "">>
Seen == LET T == TLCGet(11) IN {Key(T[k]) : k \in DOMAIN T}
Elems(q) == {q[n] : n \in DOMAIN q}
ForAll(k, C(_)) == UNION {{<<c, k, x[1], x[2]>> : x \in C(c)} : c \in DOMAIN Classes}
Asking == {d \in DOMAIN Classes : Classes[d].queries # <<>>}
BadSets(c) == UNION {{<<a, f>> : f \in Elems(Classes[c].attrs[a].bad)} : a \in Attrs(c)}
BadNews(c) == UNION {{<<a, f>> : f \in Elems(Classes[c].attrs[a].ctor)} : a \in Attrs(c)}
BadPts(c)  == {<<f, q>> : f \in Elems(Classes[c].badpts), q \in Elems(Classes[c].queries)}
Calls(c)   == {<<q, f>> : q \in {x \in Elems(Classes[c].queries) : TRUE}, f \in Layouts}
Wanted == {<<c, "set", "", "">> : c \in DOMAIN Classes} \cup {<<c, "query", "", "">> : c \in Asking}
          \cup (IF IOEnv.MIX = "C17" THEN ForAll("bad", BadSets) \cup ForAll("newbad", BadNews) \cup ForAll("badq", BadPts) ELSE {})
          \cup (IF IOEnv.MIX = "C19" THEN ForAll("call", Calls) \cup {<<"functions", "call", f, m>> : f \in Functions, m \in Layouts} ELSE {})
TDone == JsonSerialize(IOEnv.SPEC_OUT, [consumed |-> TLCGet(13), bad |-> TLCGet(12), planned |-> Cardinality(Wanted),
                                        exercised |-> Cardinality(Wanted \cap Seen), missing |-> Wanted \ Seen])
===========================================================================
