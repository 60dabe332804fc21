-------------------------------- MODULE Report -------------------------------
(* Threads that report their metrics at the same time, step by step:          *)
(* LocalArenaMetrics::report_to_global_metrics and GlobalArenaMetrics::string.*)
(* A step is what happens between two points at which the scheduler of the    *)
(* conformance driver may switch threads: an atomic addition has one point    *)
(* before and one after it, so has taking a lock.                             *)
(* Atomic = FALSE, Locked = FALSE: the algorithm without its atomic additions *)
(* and without the lock around the table of places; TLC finds lost counts.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NT,      \* threads that report
          K,       \* counters besides the table of places
          Atomic, Locked,
          Reader,  \* a further thread renders the global metrics
          Bound    \* at most so many preemptions, recorded as schedules; 99: any number, not recorded

Gen == Bound < 99
Thr == 1..(NT + IF Reader THEN 1 ELSE 0)
Own(t) == "q.cc:" \o ToString(t)
PlacesOf(t) == <<"p.cc:1", Own(t)>>
AllPlaces == {"p.cc:1"} \cup {Own(t) : t \in 1..NT}
Val(t) == t * t
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Adds == Flat([c \in 1..K |-> <<[k |-> "arrive", c |-> c], [k |-> "add", c |-> c]>>])
Take1 == IF Locked THEN <<[k |-> "nop"], [k |-> "lock"]>> ELSE <<>>
Give1 == IF Locked THEN <<[k |-> "unlock"]>> ELSE <<>>
Prog(t) == IF t <= NT
  THEN Adds \o Take1 \o Flat([i \in 1..2 |-> <<[k |-> "find", x |-> PlacesOf(t)[i]], [k |-> "put", x |-> PlacesOf(t)[i]]>>]) \o Give1
  ELSE Flat([c \in 1..K |-> <<[k |-> "nop"], [k |-> "see", c |-> c]>>]) \o Take1 \o <<[k |-> "seen"]>> \o Give1
Progs == [t \in Thr |-> Prog(t)]

VARIABLES pc, tmp, glob, table, lock, obs, cur, pre, sched
vars == <<pc, tmp, glob, table, lock, obs, cur, pre, sched>>
ViewAll == <<pc, tmp, glob, table, lock, obs>>
ViewGen == vars

Init == /\ pc = [t \in Thr |-> 1]
        /\ tmp = [t \in Thr |-> <<>>]
        /\ glob = [c \in 1..K |-> 0]
        /\ table = [x \in {} |-> 0]
        /\ lock = 0
        /\ obs = [c |-> [c \in 1..K |-> 0], p |-> [x \in {} |-> 0], at |-> 0]
        /\ cur = 0 /\ pre = 0 /\ sched = <<>>

Done(t) == pc[t] > Len(Progs[t])
Ins(t) == Progs[t][pc[t]]
Enabled(t) == ~Done(t) /\ (Ins(t).k = "lock" => lock = 0)
Known(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Do(t) ==
  LET i == Ins(t) IN
  /\ tmp' = [tmp EXCEPT ![t] = CASE i.k = "arrive" -> IF Atomic THEN <<>> ELSE <<glob[i.c]>> [] i.k = "find" -> <<table>> [] OTHER -> <<>>]
  /\ glob' = IF i.k # "add" THEN glob ELSE [glob EXCEPT ![i.c] = (IF Atomic THEN @ ELSE tmp[t][1]) + Val(t)]
  /\ table' = IF i.k # "put" THEN table ELSE Put(IF Locked THEN table ELSE tmp[t][1], i.x, Known(tmp[t][1], i.x) + Val(t))
  /\ lock' = CASE i.k = "lock" -> t [] i.k = "unlock" -> 0 [] OTHER -> lock
  /\ obs' = CASE i.k = "see" -> [obs EXCEPT !.c[i.c] = glob[i.c]] [] i.k = "seen" -> [obs EXCEPT !.p = table, !.at = 1] [] OTHER -> obs

Switch(t) == cur # 0 /\ cur # t /\ Enabled(cur)
Step(t) ==
  /\ Enabled(t)
  /\ Gen => pre + (IF Switch(t) THEN 1 ELSE 0) <= Bound
  /\ Do(t)
  /\ pc' = [pc EXCEPT ![t] = @ + 1]
  /\ IF ~Gen THEN UNCHANGED <<cur, pre, sched>>
     ELSE /\ cur' = t
          /\ pre' = pre + (IF Switch(t) THEN 1 ELSE 0)
          /\ sched' = IF cur = t THEN [sched EXCEPT ![Len(sched)][2] = @ + 1] ELSE Append(sched, <<t, 1>>)
Finished(p) == \A t \in Thr : p[t] > Len(Progs[t])

\* what the threads of the replayed event count: every counter, one shared and one own place
Calls(t) == <<[k |-> "oi"], [k |-> "oa", n |-> 30 * t, s |-> "p.cc:1"], [k |-> "oa", n |-> 200 * t, s |-> Own(t)], [k |-> "nb"],
              [k |-> "or", u |-> 3 * t, w |-> 5 * t], [k |-> "od", u |-> 7 * t, w |-> t, life |-> 4 * t]>>
Behaviour(s) == <<[op |-> "begin", nt |-> NT, na |-> 1],
                  [op |-> "conc", ths |-> [t \in 1..NT |-> Calls(t)], sched |-> s, rd |-> IF Reader THEN 1 ELSE 0],
                  [op |-> "render"]>>
Next == \E t \in Thr : Step(t) /\ (Gen /\ Finished(pc') => PrintT("B " \o ToJson(Behaviour(sched'))))
Spec == Init /\ [][Next]_vars

\* nothing lost, nothing counted twice
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE x \in S : TRUE IN Val(t) + Sum(S \ {t})
Who(x) == {t \in 1..NT : \E i \in 1..2 : PlacesOf(t)[i] = x}
Total == Finished(pc) => /\ \A c \in 1..K : glob[c] = Sum(1..NT)
                         /\ \A x \in AllPlaces : Known(table, x) = Sum(Who(x))
\* a reader sees sums of whole reports of single counters
Whole == /\ \A c \in 1..K : \E S \in SUBSET (1..NT) : obs.c[c] = Sum(S)
         /\ \A x \in DOMAIN obs.p : \E S \in SUBSET Who(x) : obs.p[x] = Sum(S)
Inv == Total /\ Whole
\* somebody can always go on
Live == Finished(pc) \/ \E t \in Thr : Enabled(t)
=============================================================================
