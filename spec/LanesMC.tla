------------------------------ MODULE LanesMC -------------------------------
(* The ownership discipline with vector clocks; generates schedules.         *)
EXTENDS Lanes, Json
CONSTANTS NT, NW, NL,   \* threads, lanes, changes of each lane
          Synced,       \* a step of a lane waits for the earlier ones (FALSE: the invariant must fail)
          Gen           \* print schedules
Threads == 1..NT
Wl == 1..NW
VARIABLES own,          \* lane -> thread
          left,         \* lane -> changes still to make
          clock,        \* thread -> vector clock
          wr, rd,       \* lane -> clock of the last change; join of the clocks of the looks since
          looked,       \* lane -> looked at since the last change
          hist
vars == <<own, left, clock, wr, rd, looked, hist>>
Zero == [t \in Threads |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [t \in Threads |-> Max(a[t], b[t])]
Leq(a, b) == \A t \in Threads : a[t] <= b[t]
Tick(c, t) == [c EXCEPT ![t] = @ + 1]

Init == /\ own \in {f \in [Wl -> Threads] : \A w \in Wl : f[w] = ((w - 1) % NT) + 1}
        /\ left = [w \in Wl |-> NL] /\ clock = [t \in Threads |-> Tick(Zero, t)]
        /\ wr = [w \in Wl |-> Zero] /\ rd = [w \in Wl |-> Zero]
        /\ looked = [w \in Wl |-> TRUE] /\ hist = <<>>

Add(s) == hist' = Append(hist, s)
\* the clock of thread t when it starts a step on lane w
Start(t, w, reading) == IF Synced THEN Join(clock[t], IF reading THEN wr[w] ELSE Join(wr[w], rd[w])) ELSE clock[t]

Do(w, t) ==
  /\ left[w] > 0
  /\ own[w] = t \/ "C03" \in Props          \* handed over right before
  /\ LET c == Start(t, w, FALSE) IN
     /\ clock' = [clock EXCEPT ![t] = Tick(c, t)]
     /\ wr' = [wr EXCEPT ![w] = c] /\ rd' = [rd EXCEPT ![w] = Zero]
  /\ own' = [own EXCEPT ![w] = t]
  /\ left' = [left EXCEPT ![w] = @ - 1] /\ looked' = [looked EXCEPT ![w] = FALSE]
  /\ Add([k |-> "d", w |-> w, t |-> t])
Look(w) ==
  /\ "C02" \in Props /\ ~looked[w] /\ left[w] < NL
  /\ LET c == [t \in Threads |-> Start(t, w, TRUE)] IN
     /\ clock' = [t \in Threads |-> Tick(c[t], t)]
     /\ rd' = [rd EXCEPT ![w] = [u \in Threads |-> LET S == {c[t][u] : t \in Threads} IN CHOOSE m \in S : \A x \in S : x <= m]]
  /\ looked' = [looked EXCEPT ![w] = TRUE]
  /\ Add([k |-> "l", w |-> w, t |-> 0])
  /\ UNCHANGED <<own, left, wr>>
Next == \/ \E w \in Wl : \E t \in Threads : Do(w, t)
        \/ \E w \in Wl : Look(w)
Spec == Init /\ [][Next]_vars

\* every change is ordered after all earlier uses of its lane, every look after the last change
Ordered ==
  [][\A w \in Wl : /\ left'[w] # left[w] => Leq(wr[w], wr'[w]) /\ Leq(rd[w], wr'[w])
                   /\ (looked'[w] /\ ~looked[w]) => Leq(wr[w], rd'[w])]_vars
\* two changes of different lanes by different threads need not be ordered: the discipline leaves real concurrency
Apart == ~(\E v, w \in Wl : left[v] < NL /\ left[w] < NL /\ ~Leq(wr[v], wr[w]) /\ ~Leq(wr[w], wr[v]))
Done == \A w \in Wl : left[w] = 0
Inv == (Gen /\ Done) => PrintT("B " \o ToJson(hist))
View == <<own, left, clock, wr, rd, looked>>
=============================================================================
