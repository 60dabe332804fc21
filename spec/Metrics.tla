------------------------------- MODULE Metrics -------------------------------
(* Arena metrics (arena/metrics.hpp): one table per thread, one global table. *)
(* The arenas' hook calls are recorded with every event; the tables must be   *)
(* the tally of these calls, and a report must move a thread's table into the *)
(* global one exactly once, under any schedule.                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT Props

B(b) == IF b THEN 1 ELSE 0
Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
RECURSIVE Eager(_, _)
Eager(f(_), n) == IF n = 0 THEN <<>> ELSE Append(Eager(f, n - 1), f(n))

SizeBound == <<64, 128, 256, 512, 1024, 2048, 4096, 1048576>>
LifeBound == <<1, 5, 10, 50, 100, 200, 500, 1000>>     \* whole milliseconds
Counters == {"ic", "dc", "ac", "nb", "rc", "sa", "sr", "su", "sw"}
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
Zero == [ic |-> 0, dc |-> 0, ac |-> 0, nb |-> 0, rc |-> 0, sa |-> 0, sr |-> 0, su |-> 0, sw |-> 0, ab |-> Zero8, lb |-> Zero8, loc |-> <<>>]
\* the bucket a number belongs to, 0 above the last bound
Bucket(bs, n) == IF n > bs[8] THEN 0 ELSE CHOOSE i \in 1..8 : n <= bs[i] /\ \A j \in 1..(i - 1) : n > bs[j]
SizeBucket(sc, n) == IF sc = 1 /\ n > 0 THEN 0 ELSE Bucket(SizeBound, n)
Bump(b, i) == IF i = 0 THEN b ELSE [b EXCEPT ![i] = @ + 1]
AddTo(f, k, n) == [x \in {k} \cup DOMAIN f |-> IF x = k THEN Get(f, k, 0) + n ELSE f[x]]

\* one hook call, seen by the table of its thread
\* sc = 1: all amounts stand for as many units of 2^33
Tally1(sc, m, c) ==
  CASE c.k = "oi" -> [m EXCEPT !.ic = @ + 1]
    [] c.k = "oa" -> [m EXCEPT !.ac = @ + 1, !.sa = @ + c.n, !.ab = Bump(@, SizeBucket(sc, c.n)), !.loc = AddTo(@, c.s, c.n)]
    [] c.k = "nb" -> [m EXCEPT !.nb = @ + 1]
    [] c.k = "or" -> [m EXCEPT !.rc = @ + 1, !.sr = @ + c.u, !.sw = @ + c.w]
    [] c.k = "od" -> [m EXCEPT !.dc = @ + 1, !.su = @ + c.u, !.sw = @ + c.w, !.lb = Bump(@, Bucket(LifeBound, c.life))]
    [] c.k = "sz" -> [m EXCEPT !.ab = Bump(@, SizeBucket(sc, c.n))]
    [] c.k = "lf" -> [m EXCEPT !.lb = Bump(@, Bucket(LifeBound, c.n))]
    [] c.k = "lc" -> [m EXCEPT !.loc = AddTo(@, c.s, c.n)]
RECURSIVE Tally(_, _, _)
Tally(sc, m, cs) == IF cs = <<>> THEN m ELSE Tally(sc, Tally1(sc, m, Head(cs)), Tail(cs))

RECURSIVE Merge(_, _)
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> Get(f, x, 0) + Get(g, x, 0)]
Plus(a, b) == [ic |-> a.ic + b.ic, dc |-> a.dc + b.dc, ac |-> a.ac + b.ac, nb |-> a.nb + b.nb, rc |-> a.rc + b.rc, sa |-> a.sa + b.sa,
               sr |-> a.sr + b.sr, su |-> a.su + b.su, sw |-> a.sw + b.sw,
               ab |-> Eager(LAMBDA i : a.ab[i] + b.ab[i], 8), lb |-> Eager(LAMBDA i : a.lb[i] + b.lb[i], 8), loc |-> Merge(a.loc, b.loc)]
RECURSIVE Sum(_)
Sum(ms) == IF ms = <<>> THEN Zero ELSE Plus(Head(ms), Sum(Tail(ms)))
\* the global table keeps the places it knows when it is reset
GReset(g) == [Zero EXCEPT !.loc = [x \in DOMAIN g.loc |-> 0]]
\* equal up to places that count nothing
NonZero(f) == {<<x, f[x]>> : x \in {y \in DOMAIN f : f[y] # 0}}
Eq(a, b) == /\ \A c \in Counters \cup {"ab", "lb"} : a[c] = b[c]
            /\ NonZero(a.loc) = NonZero(b.loc)

\* ---------------------------------------------------------------- rendering
\* a metric with nothing counted yet has no distribution: 0%
Pct(c, n) == IF n = 0 THEN 0 ELSE (c * 100) \div n
Num(n) == ToString(n)
RECURSIVE Cum(_, _)
Cum(b, i) == IF i = 0 THEN 0 ELSE b[i] + Cum(b, i - 1)
Render(g) ==
  LET RECURSIVE Sizes(_), Lives(_)
      Sizes(i) == IF i > 8 THEN "" ELSE "\n  le=" \o Num(SizeBound[i]) \o ": " \o Num(Pct(Cum(g.ab, i), g.ac)) \o "%" \o Sizes(i + 1)
      Lives(i) == IF i > 8 THEN "" ELSE "\n  le=" \o Num(LifeBound[i]) \o "ms: " \o Num(Pct(Cum(g.lb, i), g.dc)) \o Lives(i + 1)
  IN "Summary:\n  init_count: " \o Num(g.ic) \o "\n  reset_count: " \o Num(g.rc) \o "\n  destruct_count: " \o Num(g.dc) \o "\n  alloc_count: " \o Num(g.ac)
     \o "\n  newblock_count: " \o Num(g.nb) \o "\n  space_allocated: " \o Num(g.sa) \o "\n  space_used: " \o Num(g.su) \o "\n  space_wasted: " \o Num(g.sw)
     \o "\n  space_resettled: " \o Num(g.sr) \o "\nAllocSize distribution:" \o Sizes(1) \o "\nLifetime distribution:" \o Lives(1) \o "\nArena Location/AllocSize:"

\* -------------------------------------------------------------------- state
\* lm: table of each thread; ar: arenas, with thread, place and time of birth (0: none)
InitSt(e) == [lm |-> [t \in 1..e.nt |-> Zero], gm |-> Zero, tot |-> Zero, now |-> 0, sc |-> Get(e, "sc", 0),
              ar |-> [a \in 1..e.na |-> [l |-> 0, s |-> "", b |-> 0]]]
ArenaOps == {"new", "alloc", "create", "areset", "drop"}
Legal(st, o) ==
  CASE st.sc = 1 /\ (o.op \in ArenaOps \cup {"render"} \/ (o.op = "conc" /\ o.rd = 1)) -> FALSE
    [] o.op = "new" -> st.ar[o.a].l = 0
    [] o.op \in ArenaOps -> st.ar[o.a].l = 1
    [] OTHER -> TRUE
\* hook calls of an event; lifetimes and places follow from the arena
Calls(st, e) == Eager(LAMBDA i : LET c == e.fx[i] IN
                   c @@ (IF e.op = "count" THEN <<>> ELSE IF c.k = "oa" THEN [s |-> IF e.op = "new" THEN e.s ELSE st.ar[e.a].s] ELSE IF c.k = "od" THEN [life |-> st.now - st.ar[e.a].b] ELSE <<>>), Len(e.fx))
\* the tables after the event
LocalAfter(st, e, t) ==
  CASE e.op \in ArenaOps \cup {"count"} -> IF t = e.t THEN Tally(st.sc, st.lm[t], Calls(st, e)) ELSE st.lm[t]
    [] e.op \in {"report", "lreset", "tnew"} -> IF t = e.t THEN Zero ELSE st.lm[t]
    [] e.op = "conc" -> IF t \in 1..Len(e.ths) THEN Zero ELSE st.lm[t]
    [] OTHER -> st.lm[t]
\* what the threads of a concurrent event count and report in the end
RECURSIVE ConcSum(_, _, _)
ConcSum(st, e, t) == IF t = 0 THEN Zero ELSE Plus(ConcSum(st, e, t - 1), Tally(st.sc, st.lm[t], e.ths[t]))
GlobalAfter(st, e) ==
  CASE e.op = "report" -> Plus(st.gm, st.lm[e.t])
    [] e.op = "greset" -> GReset(st.gm)
    [] e.op = "conc" -> Plus(st.gm, ConcSum(st, e, Len(e.ths)))
    [] OTHER -> st.gm
\* everything counted in the history and not thrown away (ghost)
Minus(a, b) == [ic |-> a.ic - b.ic, dc |-> a.dc - b.dc, ac |-> a.ac - b.ac, nb |-> a.nb - b.nb, rc |-> a.rc - b.rc, sa |-> a.sa - b.sa,
               sr |-> a.sr - b.sr, su |-> a.su - b.su, sw |-> a.sw - b.sw,
               ab |-> Eager(LAMBDA i : a.ab[i] - b.ab[i], 8), lb |-> Eager(LAMBDA i : a.lb[i] - b.lb[i], 8),
               loc |-> [x \in DOMAIN a.loc \cup DOMAIN b.loc |-> Get(a.loc, x, 0) - Get(b.loc, x, 0)]]
RECURSIVE TallyAll(_, _, _, _)
TallyAll(sc, m, e, t) == IF t = 0 THEN m ELSE TallyAll(sc, Tally(sc, m, e.ths[t]), e, t - 1)
TotAfter(st, e) ==
  CASE e.op \in ArenaOps \cup {"count"} -> Tally(st.sc, st.tot, Calls(st, e))
    [] e.op \in {"lreset", "tnew"} -> Minus(st.tot, st.lm[e.t])
    [] e.op = "greset" -> Minus(st.tot, st.gm)
    [] e.op = "conc" -> TallyAll(st.sc, st.tot, e, Len(e.ths))
    [] OTHER -> st.tot
Post(st, e) ==
  [st EXCEPT !.lm = Eager(LAMBDA t : LocalAfter(st, e, t), Len(st.lm)), !.gm = GlobalAfter(st, e), !.tot = TotAfter(st, e),
             !.now = IF e.op = "clock" THEN @ + e.ms ELSE @,
             !.ar = IF e.op = "new" THEN [@ EXCEPT ![e.a] = [l |-> 1, s |-> e.s, b |-> st.now]]
                    ELSE IF e.op = "drop" THEN [@ EXCEPT ![e.a].l = 0] ELSE @]

\* ------------------------------------------------------------------- events
\* the reference: hook calls as plain arenas with big blocks would make them
RefCalls(st, o) ==
  CASE o.op = "new" -> <<[k |-> "oi"]>>
    [] o.op = "alloc" -> <<[k |-> "nb"], [k |-> "oa", n |-> o.n]>>
    [] o.op = "create" -> <<[k |-> "oa", n |-> 24]>>
    [] o.op = "areset" -> <<[k |-> "or", u |-> 100, w |-> 10]>>
    [] o.op = "drop" -> <<[k |-> "od", u |-> 100, w |-> 10, fr |-> 1]>>
    [] o.op = "count" -> <<o.c @@ [fr |-> 1]>>
    [] OTHER -> <<>>
\* the numbers at the head of a text, in their order
Heads(m) == <<m.ic, m.rc, m.dc, m.ac, m.nb, m.sa, m.su, m.sw, m.sr>>
Ref(st, o) ==
  LET o1 == [fx |-> RefCalls(st, o)] @@ o
      n == Post(st, o1)
  IN [lm |-> n.lm, gm |-> n.gm] @@ o1
     @@ (IF o.op = "conc" THEN [ok |-> 1] @@ (IF o.rd = 1 THEN [rh |-> Heads(n.gm), rp |-> n.gm.loc] ELSE <<>>) ELSE <<>>)
     @@ (IF o.op = "render" THEN [txt |-> Render(st.gm), places |-> st.gm.loc] ELSE <<>>)

\* ------------------------------------------------------------------ clauses
Locals(st, e) == \A t \in 1..Len(st.lm) : Eq(e.lm[t], LocalAfter(st, e, t))
Global(st, e) == Eq(e.gm, GlobalAfter(st, e))
\* a text rendered while threads report shows numbers between those before and those after
Between(a, e, b) == /\ Len(e.rh) = 9 /\ \A i \in 1..9 : Heads(a)[i] <= e.rh[i] /\ e.rh[i] <= Heads(b)[i]
                    /\ \A x \in DOMAIN a.loc \cup DOMAIN e.rp : Get(a.loc, x, 0) <= Get(e.rp, x, 0) /\ Get(e.rp, x, 0) <= Get(b.loc, x, 0)
M01(st, e) == /\ e.op = "conc" => e.ok = 1 /\ (e.rd = 1 => Between(st.gm, e, GlobalAfter(st, e)))
              /\ e.op \in {"report", "conc", "greset", "tnew", "lreset"} => Locals(st, e) /\ Global(st, e)
              /\ e.op \in ArenaOps \cup {"count", "clock", "render"} => Global(st, e)
M02(st, e) == /\ Locals(st, e)
              /\ \A i \in 1..Len(e.fx) : e.fx[i].k = "od" => e.fx[i].fr = 1
              /\ e.op = "render" => e.txt = Render(st.gm) /\ NonZero(e.places) = NonZero(st.gm.loc)
              /\ e.op \in {"report", "greset"} => Global(st, e)
Clause(p, st, e) ==
  IF e.op = "crash" THEN FALSE
  ELSE IF e.op \in {"skip", "end"} THEN TRUE
  ELSE CASE p = "M01" -> M01(st, e) [] p = "M02" -> M02(st, e)
Broken(st, e) == {p \in Props : ~Clause(p, st, e)}
Sane(st, e) == e.op \in {"skip", "end"} \/ (Legal(st, e) /\ Locals(st, e) /\ Global(st, e))
\* nothing lost, nothing counted twice: what is still there is everything counted and not thrown away
StateOK(st) == Eq(Plus(st.gm, Sum(st.lm)), st.tot) /\ st.now >= 0
=============================================================================
