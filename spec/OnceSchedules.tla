--------------------------- MODULE OnceSchedules ---------------------------
(***************************************************************************)
(* The schedules of OnceInit that a driver can force on the real code.  It *)
(* can start a call, hold a thread in the middle of building (after the    *)
(* first production) until it is told to pass, and hold it in the middle   *)
(* of parsing.  Every complete behaviour is printed as the list of these   *)
(* steps.                                                                  *)
(***************************************************************************)
EXTENDS OnceInit
VARIABLE log
Note(kind, t) == log' = Append(log, <<kind, t, now'[t]>>)
Step1(t) == \/ Call(t) /\ Note("call", t)
            \/ Register(t) /\ (IF work[t] = 1 THEN Note("pass", t) ELSE UNCHANGED log)
            \/ Parse(t) /\ Note("parse", t)
            \/ (Look(t) \/ Publish(t) \/ Read(t)) /\ UNCHANGED log
(* What a held thread does not wait for happens at once.                   *)
Prompt(t) == pc[t] \in {"read"} \/ (pc[t] = "called" /\ cell[now[t]] # "busy") \/ (pc[t] = "build" /\ work[t] # 1)
Urgent == {t \in Threads : Prompt(t)}
Next1 == \/ IF Urgent # {} THEN LET t == CHOOSE t \in Urgent : TRUE IN Step1(t)
            ELSE \E t \in Threads : Step1(t)
         \/ Finished /\ UNCHANGED <<once, log>>
Init1 == /\ Begin /\ log = <<>>
         /\ todo[1][1] = 1                          (* up to renaming *)
         /\ \A t \in Threads : Len(todo[t]) = Calls
Schedules == Init1 /\ [][Next1]_<<once, log>>
Listed == Finished => PrintT(<<"SCHEDULE", log>>)
=============================================================================
