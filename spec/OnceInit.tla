------------------------------ MODULE OnceInit ------------------------------
(***************************************************************************)
(* The first uses of grammars by several threads at once.  Every grammar   *)
(* has a cell for its tables.  A call finds the cell empty, being filled,  *)
(* or filled; the tables are built production by production and published  *)
(* as a whole; a call goes on with what it reads from the cell.            *)
(*                                                                         *)
(* Protocol "once":   one thread builds, the others wait for it;           *)
(*          "racing": threads may build at the same time, each for itself, *)
(*                    and the first to finish publishes (also right);      *)
(*          "eager":  the cell is marked filled before the tables are      *)
(*                    complete (wrong: shows that Whole can fail).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Grammars, Size, Calls, Protocol
VARIABLES cell, shared, pc, work, now, todo, got
once == <<cell, shared, pc, work, now, todo, got>>

Lists == UNION {[1..k -> Grammars] : k \in 1..Calls}
Begin == /\ cell = [g \in Grammars |-> "empty"]
         /\ shared = [g \in Grammars |-> 0]        (* productions readable *)
         /\ pc = [t \in Threads |-> "idle"]
         /\ work = [t \in Threads |-> 0]
         /\ now \in [Threads -> {CHOOSE g \in Grammars : TRUE}]
         /\ todo \in [Threads -> Lists]
         /\ got = [t \in Threads |-> 0]

Call(t) == /\ pc[t] = "idle" /\ todo[t] # <<>>
           /\ pc' = [pc EXCEPT ![t] = "called"]
           /\ now' = [now EXCEPT ![t] = Head(todo[t])]
           /\ todo' = [todo EXCEPT ![t] = Tail(@)]
           /\ UNCHANGED <<cell, shared, work, got>>
Look(t) == /\ pc[t] = "called"
           /\ LET g == now[t] IN
              IF cell[g] = "full" THEN pc' = [pc EXCEPT ![t] = "read"] /\ UNCHANGED <<cell, work>>
              ELSE /\ Protocol = "once" => cell[g] = "empty"
                   /\ pc' = [pc EXCEPT ![t] = "build"]
                   /\ work' = [work EXCEPT ![t] = 0]
                   /\ cell' = [cell EXCEPT ![g] = IF Protocol = "eager" THEN "full" ELSE "busy"]
           /\ UNCHANGED <<shared, now, todo, got>>
Register(t) == /\ pc[t] = "build" /\ work[t] < Size
               /\ work' = [work EXCEPT ![t] = @ + 1]
               /\ shared' = IF Protocol = "eager" THEN [shared EXCEPT ![now[t]] = work[t] + 1] ELSE shared
               /\ UNCHANGED <<cell, pc, now, todo, got>>
Publish(t) == /\ pc[t] = "build" /\ work[t] = Size
              /\ cell' = [cell EXCEPT ![now[t]] = "full"]
              /\ shared' = [shared EXCEPT ![now[t]] = IF cell[now[t]] = "full" THEN @ ELSE Size]
              /\ pc' = [pc EXCEPT ![t] = "read"]
              /\ UNCHANGED <<work, now, todo, got>>
Read(t) == /\ pc[t] = "read"
           /\ got' = [got EXCEPT ![t] = shared[now[t]]]
           /\ pc' = [pc EXCEPT ![t] = "parse"]
           /\ UNCHANGED <<cell, shared, work, now, todo>>
Parse(t) == /\ pc[t] = "parse"
            /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<cell, shared, work, now, todo, got>>
Step(t) == Call(t) \/ Look(t) \/ Register(t) \/ Publish(t) \/ Read(t) \/ Parse(t)
Finished == \A t \in Threads : pc[t] = "idle" /\ todo[t] = <<>>

(* Nobody parses with anything but the whole tables, and what was readable *)
(* once stays as it is.                                                    *)
Whole == /\ \A t \in Threads : pc[t] = "parse" => got[t] = Size
         /\ \A g \in Grammars : cell[g] = "full" => shared[g] = Size
Kept == [][\A g \in Grammars : cell[g] = "full" => cell'[g] = "full" /\ shared'[g] = shared[g]]_once

Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED once)
Spec == Begin /\ [][Next]_once /\ \A t \in Threads : WF_once(Step(t))
(* Every call is answered.                                                 *)
Answered == <>Finished
=============================================================================
