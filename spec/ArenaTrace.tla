----------------------------- MODULE ArenaTrace -----------------------------
(* Reads a recorded execution and decides, event by event, whether it        *)
(* satisfies the clauses of the properties in Props.                         *)
EXTENDS Arena, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, dead
vars == <<l, st, dead>>

Init == l = 1 /\ st = [none |-> TRUE] /\ dead = TRUE
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "begin" THEN st' = InitSt(e) /\ dead' = FALSE
     ELSE IF dead THEN UNCHANGED <<st, dead>>
     ELSE LET b == Broken(st, e) IN
          IF b # {} THEN PrintT(<<"REJECT", l, e.id, b>>) /\ dead' = TRUE /\ st' = st
          ELSE IF e.op = "crash" \/ ~Sane(st, e) THEN PrintT(<<"SKIP", l, e.id>>) /\ dead' = TRUE /\ st' = st
          ELSE st' = Post(st, e) /\ dead' = FALSE
  /\ (l = Len(Trace)) => PrintT(<<"END", l>>)
Spec == Init /\ [][Next]_vars
=============================================================================
