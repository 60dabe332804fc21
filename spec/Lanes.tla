-------------------------------- MODULE Lanes --------------------------------
(* Several worlds of objects ("lanes") used by several threads. A lane holds *)
(* arenas, vectors, strings or parsers; no object is in two lanes, and no    *)
(* two lanes share memory. At any time a lane belongs to one thread, which   *)
(* may change its objects, hand the lane to another thread, or let all       *)
(* threads look at it (constant operations only).                            *)
(*                                                                           *)
(* This is the discipline under which the library promises that threads do   *)
(* not disturb each other. The model carries vector clocks, and its          *)
(* invariant says that the discipline orders every change of a lane with     *)
(* respect to all other uses of it: a data race or a wrong result observed   *)
(* while it is kept is the library's.                                        *)
(*                                                                           *)
(* What a lane's objects do under their operations is said by the modules    *)
(* Arena, Vector, Text and Options; each lane's own trace is judged by them. *)
(* This module judges the steps: who did what to which lane and what was     *)
(* seen there (a digest of everything constant operations show).             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Props      \* of "C01" (separate lanes), "C02" (looking), "C03" (handing over)

(* ---- the trace side: state  [n: lanes, own: lane -> thread or 0, seen: lane -> digest or -1] *)
InitSt(e) == [own |-> [w \in 1..e.nw |-> 0], seen |-> [w \in 1..e.nw |-> 0 - 1]]
(* a change: whatever is seen now is how the lane looks until the next change *)
(* a look, and the thread that takes the lane over: see the same as the thread that made the last change *)
(* a digest of -1: nobody has looked yet, the first look decides *)
Post(st, e) == CASE e.op = "do" -> [st EXCEPT !.own[e.w] = e.t, !.seen[e.w] = e.h]
                 [] e.op = "look" -> [st EXCEPT !.seen[e.w] = e.h]
                 [] OTHER -> st
Same(st, e) == CASE e.op = "look" -> st.seen[e.w] \in {e.h, 0 - 1}
                 [] e.op = "do" -> st.own[e.w] # 0 => e.b = st.seen[e.w]
                 [] OTHER -> TRUE
Sane(st, e) == CASE e.op = "do" -> e.w \in DOMAIN st.own /\ ("C01" \notin Props \/ st.own[e.w] \in {0, e.t})
                 [] e.op = "look" -> e.w \in DOMAIN st.own /\ st.own[e.w] # 0
                 [] OTHER -> TRUE
Broken(st, e) == {p \in Props : e.op = "crash" \/ ~Same(st, e)}
=============================================================================
