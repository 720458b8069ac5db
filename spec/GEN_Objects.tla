------------------------------ MODULE GEN_Objects ------------------------------
(* Pseudo-random behaviours of ObjectRuns: a linear congruential generator    *)
(* resolves the choices; the behaviours are exported and replayed.            *)
EXTENDS ObjectRuns, TLC, Json, IOUtils
Runs == atoi(IOEnv.RUNS)
Depth == atoi(IOEnv.DEPTH)
Seed == atoi(IOEnv.VSEED)
Mix == CASE IOEnv.MIX = "C17" -> <<"bad", "bad", "bad", "query", "set", "badq", "query", "bad", "new", "via", "badq">>
         [] IOEnv.MIX = "C18" -> <<"set", "query", "set", "query", "set", "query", "via", "set", "query", "bad", "set", "query", "new", "badq", "set">>
         [] OTHER -> <<"set", "write", "query", "set", "write", "query", "scribble", "writepts", "set", "write", "query", "scribble", "new", "via", "query">>
Rnd(s) == (17364 * s) % 65521
R2(s) == Rnd(Rnd(s))
Pick(q, s) == q[((s \div 13) % Len(q)) + 1]
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
AttrSeq == [c \in DOMAIN Classes |-> ToSeq(Attrs(c))]
RECURSIVE Nth(_, _)
Nth(s, n) == IF n = 0 THEN s ELSE Nth(Rnd(s), n - 1)
\* parameters of a new object: each a form, or the default when it may be left out
Vals(c, s) == [a \in Attrs(c) |-> LET p == CHOOSE k \in DOMAIN AttrSeq[c] : AttrSeq[c][k] = a
                                      r == (Nth(s, p) \div 17) % (NForms + 2)
                                  IN IF r > NForms THEN (IF Classes[c].attrs[a].opt THEN 0 ELSE 1)
                                     ELSE IF r = 0 THEN (IF Classes[c].attrs[a].opt THEN 0 ELSE 2) ELSE r]
VARIABLES cls, run, s, log, obj
gvars == <<cls, run, s, log, obj>>
Blank == [k |-> "", o |-> 1, a |-> "", v |-> 0, q |-> "", vals |-> <<>>]
NewStep(c, o, t) == [Blank EXCEPT !.k = "new", !.o = o, !.vals = Vals(c, t)]
Step(c, t) ==
  LET k == Pick(Mix, Rnd(t))
      o == 1 + ((R2(t) \div 7) % 2)
      a == Pick(AttrSeq[c], Nth(t, 3))
      al == {b \in Attrs(c) : Classes[c].attrs[b].alias # ""}
      v == 1 + ((Nth(t, 4) \div 5) % NForms)
      ba == {b \in Attrs(c) : Classes[c].attrs[b].bad # <<>>}
      bs == ToSeq(ba)
      b == IF bs = <<>> THEN "" ELSE Pick(bs, Nth(t, 3))
  IN CASE k = "new" -> NewStep(c, o, Nth(t, 5))
       [] k = "set" \/ (k = "via" /\ al = {}) -> [Blank EXCEPT !.k = "set", !.o = o, !.a = a, !.v = v]
       [] k = "via" -> [Blank EXCEPT !.k = "via", !.o = o, !.a = (CHOOSE x \in al : TRUE), !.v = v]
       [] k = "bad" /\ b # "" -> [Blank EXCEPT !.k = "bad", !.o = o, !.a = b, !.q = Pick(Classes[c].attrs[b].bad, Nth(t, 6))]
       [] k = "query" /\ Classes[c].queries # <<>> -> [Blank EXCEPT !.k = "query", !.o = o, !.q = Pick(Classes[c].queries, Nth(t, 3)), !.v = v]
       [] k = "badq" /\ Classes[c].badpts # <<>> -> [Blank EXCEPT !.k = "badq", !.o = o, !.q = Pick(Classes[c].queries, Nth(t, 3)), !.a = Pick(Classes[c].badpts, Nth(t, 5))]
       [] OTHER -> [Blank EXCEPT !.k = IF k \in {"writepts", "scribble"} THEN k ELSE "write", !.o = o, !.a = a]
GInit == /\ cls \in DOMAIN Classes /\ run \in 1..Runs
         /\ LET c0 == CHOOSE k \in DOMAIN ToSeq(DOMAIN Classes) : ToSeq(DOMAIN Classes)[k] = cls
            IN s = 1 + ((7919 * run + 613 * c0 + 31 * Seed) % 65519)
         /\ log = << NewStep(cls, 1, Nth(s, 9)), NewStep(cls, 2, Nth(s, 31)) >>
         /\ obj = << Vals(cls, Nth(s, 9)), Vals(cls, Nth(s, 31)) >>
         /\ TLCSet(21, <<>>)
GNext == /\ Len(log) < Depth
         /\ LET e == Step(cls, s) IN log' = Append(log, e) /\ obj' = Effect(obj, e)
         /\ s' = Nth(s, 7)
         /\ (Len(log') = Depth => TLCSet(21, Append(TLCGet(21), [cls |-> cls, run |-> run, log |-> log'])))
         /\ UNCHANGED <<cls, run>>
GSpec == GInit /\ [][GNext]_gvars
\* the generated behaviours never leave the values the library accepts
ValidIds == \A o \in 1..2 : DOMAIN obj[o] = Attrs(cls) /\ \A a \in Attrs(cls) : obj[o][a] \in 0..NForms /\ (obj[o][a] = 0 => Classes[cls].attrs[a].opt)
\* refused assignments, queries and callers' writes leave the objects as they were
Frame == [][LET e == log'[Len(log')] IN e.k \notin {"new", "set", "via"} => obj' = obj]_gvars
OtherKept == [][LET e == log'[Len(log')] IN obj'[3 - e.o] = obj[3 - e.o]]_gvars
\* systematic behaviours: every parameter of every class with every form of invalid and valid value
Flat(q) == LET RECURSIVE F(_)
               F(n) == IF n = 0 THEN <<>> ELSE F(n - 1) \o q[n]
           IN F(Len(q))
Asked(c, o) == [n \in DOMAIN Classes[c].queries |-> [Blank EXCEPT !.k = "query", !.o = o, !.q = Classes[c].queries[n], !.v = 1 + (n % NForms)]]
SysRun(c, a, t) ==
  LET B == Classes[c].attrs[a].bad
      C == Classes[c].attrs[a].ctor
      v1 == Vals(c, Nth(t, 3))
      v2 == Vals(c, Nth(t, 29))
  IN << [Blank EXCEPT !.k = "new", !.vals = v1], [Blank EXCEPT !.k = "new", !.o = 2, !.vals = v2] >>
     \o [n \in DOMAIN B |-> [Blank EXCEPT !.k = "bad", !.a = a, !.q = B[n]]]
     \o [n \in DOMAIN C |-> [Blank EXCEPT !.k = "newbad", !.a = a, !.q = C[n]]]
     \o Asked(c, 1) \o Asked(c, 2)
     \o Flat([v \in 1..NForms |-> << [Blank EXCEPT !.k = "set", !.a = a, !.v = v],
                                     [Blank EXCEPT !.k = "new", !.o = 2, !.vals = [v2 EXCEPT ![a] = v]] >>])
     \o Asked(c, 1)
SysPts(c, t) == << [Blank EXCEPT !.k = "new", !.vals = Vals(c, t)], [Blank EXCEPT !.k = "new", !.o = 2, !.vals = Vals(c, Nth(t, 7))] >>
     \o Flat([n \in DOMAIN Classes[c].queries |-> [m \in DOMAIN Classes[c].badpts |->
             [Blank EXCEPT !.k = "badq", !.q = Classes[c].queries[n], !.a = Classes[c].badpts[m]]]])
     \o Asked(c, 1)
\* every parameter changed on its own between two rounds of all queries, with the other object asked in between
HistRun(c, a, t) ==
  LET v1 == Vals(c, Nth(t, 3))
      other == 1 + (((v1[a] + 2) % NForms))
  IN << [Blank EXCEPT !.k = "new", !.vals = v1], [Blank EXCEPT !.k = "new", !.o = 2, !.vals = v1] >>
     \o Asked(c, 1) \o << [Blank EXCEPT !.k = "set", !.a = a, !.v = other] >>
     \o Flat([n \in DOMAIN Classes[c].queries |-> << Asked(c, 1)[n], Asked(c, 2)[n] >>])
     \o (IF Classes[c].attrs[a].alias # "" THEN << [Blank EXCEPT !.k = "via", !.a = a, !.v = 1 + (other % NForms)] >> ELSE <<>>)
     \o << [Blank EXCEPT !.k = "set", !.o = 2, !.a = a, !.v = 1 + ((other + 1) % NForms)] >>
     \o Asked(c, 2) \o Asked(c, 1)
\* to and fro between a value and values that share most of it with it (one component, the order, the leading digits)
CloseRun(c, a, t) ==
  LET v1 == [Vals(c, Nth(t, 3)) EXCEPT ![a] = 1]
      To(v) == << [Blank EXCEPT !.k = "set", !.a = a, !.v = v] >> \o Asked(c, 1)
  IN << [Blank EXCEPT !.k = "new", !.vals = v1], [Blank EXCEPT !.k = "new", !.o = 2, !.vals = v1] >>
     \o Asked(c, 1) \o To(2) \o To(1) \o To(3) \o To(1) \o To(4) \o To(1) \o To(5) \o To(1) \o To(6)
SysRuns == Flat([n \in DOMAIN ToSeq(DOMAIN Classes) |->
             LET c == ToSeq(DOMAIN Classes)[n] IN
             << [cls |-> c, run |-> 900, log |-> SysPts(c, 1 + ((97 * n + Seed) % 60000))] >>
             \o [m \in DOMAIN AttrSeq[c] |-> [cls |-> c, run |-> 1000 + m, log |-> SysRun(c, AttrSeq[c][m], 1 + ((331 * m + 97 * n + Seed) % 60000))]]])
HistRuns == Flat([n \in DOMAIN ToSeq(DOMAIN Classes) |->
             LET c == ToSeq(DOMAIN Classes)[n] IN
             [m \in DOMAIN AttrSeq[c] |-> [cls |-> c, run |-> 2000 + m, log |-> HistRun(c, AttrSeq[c][m], 1 + ((331 * m + 97 * n + 7 * Seed) % 60000))]]])
CloseRuns == Flat([n \in DOMAIN ToSeq(DOMAIN Classes) |->
             LET c == ToSeq(DOMAIN Classes)[n] IN
             [m \in DOMAIN AttrSeq[c] |-> [cls |-> c, run |-> 3000 + m, log |-> CloseRun(c, AttrSeq[c][m], 1 + ((331 * m + 97 * n + 11 * Seed) % 60000))]]])
Done == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.SPEC_OUT, [runs |-> TLCGet(21) \o (CASE IOEnv.MIX = "C17" -> SysRuns [] IOEnv.MIX = "C18" -> HistRuns \o CloseRuns [] OTHER -> <<>>)])
===========================================================================
