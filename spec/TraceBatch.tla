---------------------------- MODULE TraceBatch ----------------------------
(* Batch trace validation.  TRACES names a JSON file: a list of records     *)
(* {ev: [event, ...], ...}.  A trace module defines                         *)
(*   Start(tr)      the specification state before the first event          *)
(*   Bad(tr, s, e)  the set of names of clauses of the specification that    *)
(*                  event e violates in state s ({} = allowed)               *)
(*   After(tr, s, e) the specification state after e                        *)
(* and instantiates the transition system below.  Every event is judged;    *)
(* the first bad event of a trace ends that trace and is reported.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, pos, st
tvars == <<tid, pos, st>>

BatchInit(Start(_)) ==
  /\ tid \in 1..Len(Traces)
  /\ pos = 1
  /\ st = Start(Traces[tid])

BatchNext(Bad(_,_,_), After(_,_,_)) ==
  /\ pos <= Len(Traces[tid].ev)
  /\ LET tr == Traces[tid]
         e  == tr.ev[pos]
         b  == Bad(tr, st, e)
     IN /\ IF b = {} THEN TRUE
           ELSE PrintT("@@FAIL " \o ToJson([t |-> tid, l |-> pos, bad |-> SetToSeq(b)]))
        /\ pos' = IF b = {} THEN pos + 1 ELSE Len(tr.ev) + 1
        /\ st' = IF b = {} THEN After(tr, st, e) ELSE st
        /\ tid' = tid

(* names of the clauses whose formula is FALSE; clauses: set of <<name, formula>> *)
Failing(clauses) == { c[1] : c \in { d \in clauses : ~d[2] } }
===========================================================================
