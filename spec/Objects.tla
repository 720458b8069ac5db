------------------------------- MODULE Objects -------------------------------
(***************************************************************************)
(* Parameter objects, their storage and their callers.                     *)
(*                                                                         *)
(* What a user relies on is the abstract machine: an object is a map       *)
(* `want` from parameters to values, assignments of valid values replace   *)
(* an entry, refused assignments, queries and whatever callers do to their *)
(* own arrays change nothing, and a query is a function of the map.        *)
(*                                                                         *)
(* Below it is a storage machine with a heap of cells: parameters refer to *)
(* cells, callers own cells and write to them at any time.  The storage    *)
(* discipline `pol` decides who shares cells with whom.  TLC checks that   *)
(* the discipline "copy" implements the abstract machine in every          *)
(* behaviour, and that each of the unsound disciplines is exposed by some  *)
(* behaviour of the same machine -- so behaviours of this machine are what *)
(* the harness replays on the library.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Obj, Attr, Value, Default, Junk, Policies

Own(o, a) == <<"own", o, a>>
Def(a)    == <<"def", 0, a>>
Call(k)   == <<"call", 0, k>>
Callers   == {Call(1), Call(2)}
Cells     == {Own(o, a) : o \in Obj, a \in Attr} \cup {Def(a) : a \in Attr} \cup Callers
None == <<>>

VARIABLES pol,    \* the storage discipline
          heap,   \* cell -> value
          ref,    \* object, parameter -> cell
          memo,   \* object -> remembered answer
          out,    \* cells the caller got hold of through results
          want,   \* object, parameter -> value : the abstract machine
          cwant,  \* caller cell -> what the caller put there
          reply   \* the last answer and the answer it should have been
vars == <<pol, heap, ref, memo, out, want, cwant, reply>>

View(o) == [a \in Attr |-> heap[ref[o][a]]]

Init == /\ pol \in Policies
        /\ heap = [c \in Cells |-> Default]
        /\ ref = [o \in Obj |-> [a \in Attr |-> IF pol = "shared default" THEN Def(a) ELSE Own(o, a)]]
        /\ memo = [o \in Obj |-> None]
        /\ out = {}
        /\ want = [o \in Obj |-> [a \in Attr |-> Default]]
        /\ cwant = [c \in Callers |-> Default]
        /\ reply = <<None, None>>

\* a fresh object with default parameters replaces o
New(o) == /\ want' = [want EXCEPT ![o] = [a \in Attr |-> Default]]
          /\ ref' = [ref EXCEPT ![o] = [a \in Attr |-> IF pol = "shared default" THEN Def(a) ELSE Own(o, a)]]
          /\ heap' = IF pol = "shared default" THEN heap
                     ELSE [c \in Cells |-> IF \E a \in Attr : c = Own(o, a) THEN Default ELSE heap[c]]
          /\ memo' = [memo EXCEPT ![o] = None]
          /\ out' = out \ {Own(o, a) : a \in Attr}       \* a new array; the old one is garbage
          /\ UNCHANGED <<pol, cwant, reply>>

\* the caller (re)uses one of its arrays for a value
Write(c, v) == /\ heap' = [heap EXCEPT ![c] = v]
               /\ cwant' = [cwant EXCEPT ![c] = v]
               /\ UNCHANGED <<pol, ref, memo, out, want, reply>>

\* a valid assignment of the value in caller cell c
Set(o, a, c) ==
  /\ cwant[c] \in Value
  /\ want' = [want EXCEPT ![o][a] = cwant[c]]
  /\ IF pol = "alias argument"
     THEN ref' = [ref EXCEPT ![o][a] = c] /\ heap' = heap
     ELSE /\ ref' = ref
          /\ LET h == [heap EXCEPT ![ref[o][a]] = heap[c]]
             IN heap' = IF pol = "write argument" THEN [h EXCEPT ![c] = Junk] ELSE h
  /\ memo' = [memo EXCEPT ![o] = IF pol = "stale memo" THEN @ ELSE None]
  /\ UNCHANGED <<pol, out, cwant, reply>>

\* an invalid assignment: refused
SetBad(o, a) ==
  /\ heap' = IF pol = "store then check" THEN [heap EXCEPT ![ref[o][a]] = Junk] ELSE heap
  /\ UNCHANGED <<pol, ref, memo, out, want, cwant, reply>>

Query(o) ==
  LET ans == IF pol = "stale memo" /\ memo[o] # None THEN memo[o] ELSE View(o) IN
  /\ reply' = <<ans, want[o]>>
  /\ memo' = IF pol = "stale memo" THEN [memo EXCEPT ![o] = ans] ELSE memo
  /\ out' = IF pol = "alias result" THEN out \cup {ref[o][a] : a \in Attr} ELSE out
  /\ heap' = IF pol = "query writes" THEN [heap EXCEPT ![ref[o][CHOOSE a \in Attr : TRUE]] = Junk] ELSE heap
  /\ UNCHANGED <<pol, ref, want, cwant>>

\* the caller overwrites a result it was given
Scribble == /\ heap' = [c \in Cells |-> IF c \in out THEN Junk ELSE heap[c]]
            /\ UNCHANGED <<pol, ref, memo, out, want, cwant, reply>>

Next == \/ \E o \in Obj : New(o) \/ Query(o)
        \/ \E c \in Callers, v \in Value \cup {Junk} : Write(c, v)
        \/ \E o \in Obj, a \in Attr : SetBad(o, a) \/ \E c \in Callers : Set(o, a, c)
        \/ Scribble
Spec == Init /\ [][Next]_vars

\* ---- what the user relies on ---------------------------------------------
ParametersKept  == \A o \in Obj : View(o) = want[o]
ArgumentsIntact == \A c \in Callers : heap[c] = cwant[c]
AnswersCurrent  == reply[1] = reply[2]
Isolated == ParametersKept /\ ArgumentsIntact /\ AnswersCurrent
Sound == pol = "copy" => Isolated
===========================================================================
