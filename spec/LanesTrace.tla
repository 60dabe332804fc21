----------------------------- MODULE LanesTrace -----------------------------
(* Reads the recorded steps of a run with several threads.                   *)
EXTENDS Lanes, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, dead
vars == <<l, st, dead>>

Init == l = 1 /\ st = [none |-> TRUE] /\ dead = TRUE
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "begin" THEN st' = InitSt(e) /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET b == Broken(st, e) IN
          IF b # {} THEN PrintT(<<"REJECT", l, e.id, b>>) /\ dead' = TRUE /\ st' = st
          ELSE IF ~Sane(st, e) THEN Assert(FALSE, <<"not a schedule", l>>) /\ dead' = TRUE /\ st' = st
          ELSE st' = Post(st, e) /\ dead' = FALSE
  /\ (l = Len(Trace)) => PrintT(<<"END", l>>)
Spec == Init /\ [][Next]_vars
=============================================================================
