------------------------------- MODULE MetricsMC ------------------------------
(* Bounded exploration of the metrics model and generation of behaviours.     *)
EXTENDS Metrics, Json, Randomization

CONSTANTS Profile, Mode, Depth
VARIABLES st, hist, d0
View == <<st, Len(hist)>>
Big == Mode = "sim"
NT == 3
NA == 2
T == 1..NT
Sites == {"p.cc:1", "p.cc:12", "r.cc:12", "dir/q.cc:7"}

\* ------------------------------------------------------------- direct calls
Around(bs) == UNION {{bs[i] - 1, bs[i], bs[i] + 1} : i \in 1..8} \cup {0}
SizeN == IF Big THEN RandomSubset(4, Around(SizeBound) \cup {30, 77, 3000, 500000}) ELSE Around(SizeBound)
LifeN == IF Big THEN RandomSubset(4, Around(LifeBound) \cup {7, 300, 40000, 2147484, 4294968, 2147483647}) ELSE Around(LifeBound) \cup {32768, 65537, 2147484, 4294968, 2147483647}
Oa(n, s) == [k |-> "oa", n |-> n, s |-> s]
Od(u, w, l) == [k |-> "od", u |-> u, w |-> w, life |-> l]
Basic == {[k |-> "oi"], [k |-> "nb"], [k |-> "or", u |-> 5, w |-> 3], [k |-> "or", u |-> 0, w |-> 0], Oa(64, "p.cc:1"), Oa(65, "p.cc:12"), Oa(3, "r.cc:12"), Oa(0, "dir/q.cc:7"), Oa(2000000, "p.cc:1"), Od(100, 20, 1), Od(3, 0, 2000)}
Edges == {Oa(n, s) : n \in SizeN, s \in {"p.cc:1"}} \cup {Od(7, 2, l) : l \in LifeN} \cup {[k |-> "sz", n |-> n] : n \in SizeN} \cup {[k |-> "lf", n |-> n] : n \in LifeN}
         \cup {[k |-> "lc", n |-> n, s |-> s] : n \in {0, 9}, s \in Sites}
Counts(c, ts) == {[op |-> "count", t |-> t, c |-> x] : t \in ts, x \in c}
\* a thread's calls in a concurrent event
RECURSIVE Lists(_, _)
Lists(S, n) == IF n = 0 THEN {<<>>} ELSE LET h == Lists(S, n - 1) IN h \cup {Append(x, y) : x \in {z \in h : Len(z) = n - 1}, y \in S}
RndList == LET S == RandomSubset(4, Basic \cup Edges) IN CHOOSE l \in {<<a, b, c, d, a, c>> : a \in RandomSubset(1, S), b \in RandomSubset(1, S), c \in RandomSubset(1, S), d \in RandomSubset(1, S)} : TRUE
Small == {Oa(64, "p.cc:1"), Oa(65, "p.cc:12"), Od(1, 2, 3)}
SomeSched == {<<>>, <<<<1, 7>>, <<2, 30>>, <<1, 3>>>>, <<<<2, 40>>, <<1, 51>>, <<2, 9>>, <<3, 12>>>>, <<<<3, 1>>, <<2, 52>>, <<1, 54>>, <<3, 60>>>>}
Concs == IF Big THEN {[op |-> "conc", ths |-> Eager(LAMBDA i : RndList, n), sched |-> s, rd |-> r] : n \in RandomSubset(1, {2, 3}), r \in RandomSubset(1, {0, 1}), s \in RandomSubset(1, SomeSched)}
         ELSE UNION {{[op |-> "conc", ths |-> <<a, b>>, sched |-> s, rd |-> r] : a \in Lists(Small, 1), b \in Lists(Small, 1), r \in {0, 1}} : s \in RandomSubset(1, SomeSched)}

\* -------------------------------------------------------------------- arenas
New(s) == IF \A a \in 1..NA : s.ar[a].l = 1 THEN {} ELSE LET a == CHOOSE x \in 1..NA : s.ar[x].l = 0 IN {[op |-> "new", a |-> a, t |-> t, s |-> p] : t \in T, p \in Sites}
LiveA(s) == {a \in 1..NA : s.ar[a].l = 1}
Allocs(s) == {[op |-> "alloc", a |-> a, t |-> t, n |-> n] : a \in LiveA(s), t \in T, n \in {0, 1, 60, 64, 65, 128, 200, 256, 500, 1024, 1500, 5000}}
Creates(s) == {[op |-> "create", a |-> a, t |-> t] : a \in LiveA(s), t \in T}
Resets(s) == {[op |-> "areset", a |-> a, t |-> t] : a \in LiveA(s), t \in T}
DropsA(s) == {[op |-> "drop", a |-> a, t |-> t] : a \in LiveA(s), t \in T}
Clocks == {[op |-> "clock", ms |-> m] : m \in {1, 4, 6, 45, 500, 2500000}}
Reports(ts) == {[op |-> "report", t |-> t] : t \in ts}
Ends(ts) == {[op |-> o, t |-> t] : o \in {"lreset", "tnew"}, t \in ts}
Globals == {[op |-> "greset"], [op |-> "render"]}

Gp(s, n) ==
  CASE n = "Basic" -> Counts(Basic, IF Big THEN T ELSE {1, 2}) [] n = "Edges" -> Counts(Edges, IF Big THEN T ELSE {1}) [] n = "Concs" -> Concs [] n = "New" -> New(s)
    [] n = "Allocs" -> Allocs(s) [] n = "Creates" -> Creates(s) [] n = "Resets" -> Resets(s) [] n = "Drops" -> DropsA(s) [] n = "Clocks" -> Clocks
    [] n = "Reports" -> Reports(IF Big THEN T ELSE {1, 2}) [] n = "Ends" -> Ends(IF Big THEN T ELSE {2}) [] n = "Globals" -> Globals
    [] n = "Arena1" -> {o \in Allocs(s) \cup Creates(s) \cup Resets(s) \cup DropsA(s) : o.t = 1}
    [] n = "New1" -> {o \in New(s) : o.t = 1} [] n = "Render" -> {[op |-> "render"]} [] n = "Report1" -> Reports({1})
Mix == <<"Basic", "Basic", "Edges">> \o (IF Profile = "M01" THEN <<"Concs", "Concs">> ELSE <<>>) \o << "New", "New", "Allocs", "Allocs", "Creates", "Resets", "Drops", "Clocks", "Reports", "Reports", "Ends", "Globals">>
Groups(s, d) ==
  CASE Big -> Mix
    [] Profile = "M01" -> <<"Basic", "Reports", "Concs", "Globals", "Ends">>
    [] Profile = "M02" /\ s.ar[1].l = 1 -> IF d < 3 THEN <<"Arena1", "Clocks">> ELSE <<"Report1">>
    [] OTHER -> CASE d = 0 -> <<"Edges", "Basic", "Globals">> [] d = 1 -> <<"Edges", "Reports">> [] d = 2 -> <<"Reports", "Render">> [] OTHER -> <<"Globals">>

Skip == [op |-> "skip"]
Some(n, S0) == IF Cardinality(S0) <= n THEN S0 ELSE RandomSubset(n, S0)
Part(s, n, d) == LET g == Gp(s, n) IN IF Profile = "M01" /\ d > 0 /\ n \in {"Concs", "Basic"} THEN Some(4, g) ELSE IF Profile = "M02" /\ n = "Edges" /\ d > 0 THEN Some(6, g) ELSE g
Cands(s, d) == IF Big THEN UNION {LET g == Gp(s, Groups(s, d)[i]) IN IF g = {} THEN {Skip} ELSE RandomSubset(1, {o \in g : Legal(s, o)} \cup {Skip}) : i \in RandomSubset(1, 1..Len(Groups(s, d)))}
               ELSE UNION {{o \in Part(s, Groups(s, d)[i], d) : Legal(s, o)} : i \in 1..Len(Groups(s, d))}
Begin(c) == [op |-> "begin", nt |-> NT, na |-> NA, sc |-> c]
Starts == CASE Big -> {<<>>}
            [] Profile = "M01" -> {<<>>, <<[op |-> "count", t |-> 1, c |-> Oa(100, "p.cc:1")], [op |-> "count", t |-> 2, c |-> Od(1, 2, 3)], [op |-> "report", t |-> 2]>>}
            [] OTHER -> {<<>>, <<[op |-> "new", a |-> 1, t |-> 1, s |-> "p.cc:12"]>>, <<[op |-> "new", a |-> 1, t |-> 1, s |-> "p.cc:1"], [op |-> "alloc", a |-> 1, t |-> 1, n |-> 200], [op |-> "clock", ms |-> 5]>>}
RECURSIVE Run(_, _)
Run(s, os) == IF os = <<>> THEN s ELSE Run(Post(s, Ref(s, Head(os))), Tail(os))
Init == \E x \in [c : Starts, sc : {0}] \cup {[c |-> <<>>, sc |-> 1]} : st = Run(InitSt(Begin(x.sc)), x.c) /\ hist = <<Begin(x.sc)>> \o x.c /\ d0 = Len(x.c) + 1

Emit(h) == IF Mode = "bfs" THEN PrintT("B " \o ToJson(h)) ELSE IF Len(h) = Depth + d0 THEN PrintT("B " \o ToJson(h)) ELSE TRUE
Step(o) ==
  LET e == Ref(st, o) IN
  /\ o.op # "skip" => Assert(Broken(st, e) = {} /\ Sane(st, e), <<"reference violates", Broken(st, e), e, st>>)
  /\ st' = IF o.op = "skip" THEN st ELSE Post(st, e)
  /\ hist' = Append(hist, o)
  /\ d0' = d0
  /\ Emit(hist')
Next == /\ Len(hist) < Depth + d0
        /\ \E o \in Cands(st, Len(hist) - d0) : Step(o)
Spec == Init /\ [][Next]_<<st, hist, d0>>
Inv == StateOK(st)
=============================================================================
