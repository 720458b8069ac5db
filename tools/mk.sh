#!/bin/bash
# mk.sh <Module> <Prefix> <identities> <controls> <terms> [samples]: write MC_/TR_ modules and configs
m=$1; p=$2
cat > MC_$m.tla <<X
---------------------------- MODULE MC_$m ----------------------------
EXTENDS MCLaws, $m
Ids == $3
Bad == $4
Ex == $5
===========================================================================
X
cat > MC_$m.cfg <<X
SPECIFICATION Spec
INVARIANT ZeroOK
CONSTRAINT Tally
POSTCONDITION Done
CHECK_DEADLOCK FALSE
CONSTANT NSamples = ${6:-120}
CONSTANT Enough = ${7:-3}
CONSTANT Identities <- Ids
CONSTANT Refuted <- Bad
CONSTANT Export <- Ex
CONSTANT Plan <- ${p}Plan
X
cat > TR_$m.tla <<X
---------------------------- MODULE TR_$m ----------------------------
EXTENDS Conform, $m
===========================================================================
X
cat > TR_$m.cfg <<X
SPECIFICATION TraceSpec
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
CONSTANT Planned <- ${p}Plan
CONSTANT Clause <- ${p}Clause
X
