------------------------------- MODULE Vector -------------------------------
(* stdb_vector: several vectors of one element type, every public operation, *)
(* and the promises V01..V09 as predicates over (state, observed event).     *)
(* The state after an event is what the event reports, so every event is     *)
(* judged against the abstract effect of the operation on the state before.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Props

Has(e, f) == f \in DOMAIN e
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Rep(n, x) == SubSeq([i \in 1..n |-> x], 1, n)
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Splice(s, p, ins) == Take(s, p) \o ins \o Drop(s, p)       \* p: 0-based position
Cut(s, p, q) == Take(s, p) \o Drop(s, q)

\* ------------------------------------------------------------------ state
Dead == [l |-> 0, v |-> <<>>, cap |-> 0]
InitSt(e) == [isz |-> e.isz, big |-> e.big, dv |-> Get(e, "dv", 0), bad |-> 0, sl |-> [i \in 1..e.ns |-> Dead]]
El(st, a) == st.sl[a].v
Cp(st, a) == st.sl[a].cap

\* ------------------------------------------------------- abstract effects
CtorOps == {"ctor0", "ctorn", "ctornv", "ctorr", "copyctor", "movector"}
RangeOps == {"ctorr", "assignr", "insr"}
AliasOps == {"pusha", "ebacka", "insa", "insna", "rsza", "assna", "empla", "empia"}
CopyOps == {"copyctor", "movector", "copyas", "moveas", "swap"}
BulkOps == {"wbuf", "fill", "rszu"}
EraseOps == {"er", "err", "erv", "erif", "pop", "clear"}
AppendOps == {"push", "pushm", "eback", "pusha", "ebacka", "wbuf", "fill", "rsz", "rszv", "rsza", "rszu"}
WriteOps == {"set", "sort", "rev", "rot"}     \* through references and iterators
GeoOps == {"push", "pushm", "eback", "pusha", "ebacka", "ins", "insm", "insn", "insr", "insa", "insna", "empl", "empi", "empla", "empia", "wbuf", "fill"}
\* what fits is put into the storage there is
FitOps == AppendOps \cup GeoOps \cup {"resv", "assignn", "assignr", "assna", "copyas"}
ReadOps == {"cmp", "grow", "end", "skip"}

\* the slots an operation may change
Touched(o) == CASE o.op \in ReadOps -> {}
                [] o.op \in {"copyctor", "copyas"} -> {o.a}
                [] o.op \in {"movector", "moveas", "swap"} -> {o.a, o.b}
                [] OTHER -> {o.a}

\* new contents of slot a
Body(st, o) ==
  LET a == o.a  s == El(st, a)  IN
  CASE o.op = "ctor0" -> <<>>
    [] o.op = "ctorn" -> Rep(o.n, st.dv)
    [] o.op = "ctornv" -> Rep(o.n, o.x)
    [] o.op = "ctorr" -> o.vs
    [] o.op \in {"copyctor", "movector", "copyas", "moveas", "swap"} -> El(st, o.b)
    [] o.op = "destroy" -> <<>>
    [] o.op = "assignn" -> Rep(o.n, o.x)
    [] o.op = "assignr" -> o.vs
    [] o.op = "assna" -> Rep(o.n, s[o.i + 1])
    [] o.op \in {"push", "pushm", "eback"} -> Append(s, o.x)
    [] o.op \in {"pusha", "ebacka"} -> Append(s, s[o.i + 1])
    [] o.op \in {"ins", "insm", "empl", "empi"} -> Splice(s, o.p, <<o.x>>)
    [] o.op \in {"insa", "empla", "empia"} -> Splice(s, o.p, <<s[o.i + 1]>>)
    [] o.op = "insn" -> Splice(s, o.p, Rep(o.n, o.x))
    [] o.op = "insna" -> Splice(s, o.p, Rep(o.n, s[o.i + 1]))
    [] o.op = "insr" -> Splice(s, o.p, o.vs)
    [] o.op = "er" -> Cut(s, o.p, o.p + 1)
    [] o.op = "err" -> Cut(s, o.p, o.q)
    [] o.op = "erv" -> SelectSeq(s, LAMBDA y : y # o.x)
    [] o.op = "erif" -> SelectSeq(s, LAMBDA y : y >= o.x)
    [] o.op = "pop" -> Take(s, Len(s) - 1)
    [] o.op = "clear" -> <<>>
    [] o.op = "rsz" -> IF o.n <= Len(s) THEN Take(s, o.n) ELSE s \o Rep(o.n - Len(s), st.dv)
    [] o.op = "rszv" -> IF o.n <= Len(s) THEN Take(s, o.n) ELSE s \o Rep(o.n - Len(s), o.x)
    [] o.op = "rsza" -> IF o.n <= Len(s) THEN Take(s, o.n) ELSE s \o Rep(o.n - Len(s), s[o.i + 1])
    [] o.op = "wbuf" -> s \o o.vs
    [] o.op = "rszu" -> IF o.n <= Len(s) THEN Take(s, o.n) ELSE s \o Take(o.vs, o.n - Len(s))   \* the caller fills the new ones
    [] o.op = "set" -> [s EXCEPT ![o.p + 1] = o.x]
    [] o.op = "sort" -> SortSeq(s, LAMBDA x, y : x < y)
    [] o.op = "rev" -> SubSeq([i \in DOMAIN s |-> s[Len(s) + 1 - i]], 1, Len(s))
    [] o.op = "rot" -> Drop(s, o.p) \o Take(s, o.p)
    [] o.op = "fill" -> s \o Take(o.vs, o.m)
    [] OTHER -> s        \* reserve, shrink, comparison

\* expected contents of every slot
Want(st, o, i) ==
  CASE o.op \in ReadOps -> El(st, i)
    [] i = o.a -> Body(st, o)
    [] o.op \in {"movector", "moveas"} /\ i = o.b -> <<>>
    [] o.op = "swap" /\ i = o.b -> El(st, o.a)
    [] OTHER -> El(st, i)
WantL(st, o, i) ==
  CASE o.op \in ReadOps -> st.sl[i].l
    [] o.op \in CtorOps /\ i = o.a -> 1
    [] o.op = "destroy" /\ i = o.a -> 0
    [] OTHER -> st.sl[i].l

\* the position (or count) an operation returns; -1: nothing
Ret(st, o) ==
  CASE o.op \in {"ins", "insm", "insn", "insr", "empl", "empi", "insa", "insna", "empla", "empia", "er"} -> o.p
    [] o.op \in {"eback", "ebacka"} -> Len(El(st, o.a))
    [] o.op = "err" -> o.q          \* pinned by the existing tests: the given end of the range
    [] o.op \in {"erv", "erif"} -> Len(El(st, o.a)) - Len(Body(st, o))
    [] OTHER -> -1

RECURSIVE LexLess(_, _)
LexLess(s, t) == IF t = <<>> THEN FALSE
                 ELSE IF s = <<>> THEN TRUE
                 ELSE IF Head(s) < Head(t) THEN TRUE
                 ELSE IF Head(s) > Head(t) THEN FALSE
                 ELSE LexLess(Tail(s), Tail(t))
B(c) == IF c THEN 1 ELSE 0
\* ==, !=, <, <=, >, >=
CmpWant(s, t) == <<B(s = t), B(s # t), B(LexLess(s, t)), B(~LexLess(t, s)), B(LexLess(t, s)), B(~LexLess(s, t))>>

\* ------------------------------------------------------- reference capacity
Next1(st, c) == IF c < st.isz THEN st.isz
                ELSE IF c > 0 /\ st.big = 1 THEN 2 * c ELSE (3 * c + 1) \div 2
Need(st, o) == IF o.op = "fill" THEN Len(El(st, o.a)) + o.n ELSE Len(Body(st, o))
Huge(o) == Get(o, "hg", 0) = 1
\* the form without check never asks how much there is; where there is not enough room the driver uses the other one
Asks(st, o) == IF Get(o, "u", 0) = 1 /\ Need(st, o) <= Cp(st, o.a) THEN 0 ELSE 1
NewCap(st, o) ==
  LET a == o.a  c == Cp(st, a)  n == Need(st, o) IN
  CASE o.op \in {"ctor0", "destroy"} -> 0
    [] o.op \in {"ctorn", "ctornv", "ctorr", "copyctor"} -> n
    [] o.op \in {"movector", "moveas", "swap"} -> Cp(st, o.b)
    [] o.op \in {"copyas", "assignn", "assignr", "assna", "rsz", "rszv", "rsza", "rszu"} -> Max(c, n)
    [] o.op \in GeoOps -> IF n > c THEN Max(n, Next1(st, c)) ELSE c
    [] o.op = "resv" -> Max(c, o.n)
    [] o.op = "shrink" -> Len(El(st, a))
    [] OTHER -> c
Allocates(st, o) ==
  CASE o.op \in {"ctorn", "ctornv", "ctorr", "copyctor"} -> Need(st, o) > 0
    [] o.op \in {"movector", "moveas", "swap"} -> FALSE
    [] o.op = "shrink" -> Cp(st, o.a) > Len(El(st, o.a)) /\ Len(El(st, o.a)) > 0
    [] o.op \in ReadOps -> FALSE
    [] OTHER -> NewCap(st, o) > Cp(st, o.a)

\* a tuple is evaluated once, a function at every use
RECURSIVE Eager(_, _)
Eager(f(_), n) == IF n = 0 THEN <<>> ELSE Append(Eager(f, n - 1), f(n))
SameSl(st) == Eager(LAMBDA i : [l |-> st.sl[i].l, v |-> st.sl[i].v, cap |-> st.sl[i].cap, mv |-> 0], Len(st.sl))
CapAfter(st, o, i) ==
  CASE o.op \in ReadOps -> Cp(st, i)
    [] i = o.a -> NewCap(st, o)
    [] o.op \in {"movector", "moveas"} /\ i = o.b -> 0
    [] o.op = "swap" /\ i = o.b -> Cp(st, o.a)
    [] OTHER -> Cp(st, i)

\* the event a correct implementation produces
Ref(st, o) ==
  LET ex == Huge(o) \/ (Get(o, "fa", 0) = 1 /\ Allocates(st, o))
      nsl == IF ex THEN SameSl(st)
             ELSE Eager(LAMBDA i :
                     [l |-> WantL(st, o, i), v |-> Want(st, o, i), cap |-> CapAfter(st, o, i),
                      mv |-> IF i \in Touched(o) /\ (o.op \in CtorOps \cup {"moveas", "swap", "destroy"} \/ CapAfter(st, o, i) # Cp(st, i)) THEN 1 ELSE 0], Len(st.sl))
      n == Len(El(st, Get(o, "a", 1)))
  IN [sl |-> nsl, exc |-> B(ex), af |-> B(ex /\ ~Huge(o)), acc |-> 1, lt |-> 0, leak |-> 0, ret |-> IF ex THEN -1 ELSE Ret(st, o)] @@ o
     @@ (IF o.op = "cmp" THEN [c |-> CmpWant(El(st, o.a), El(st, o.b))] ELSE <<>>)
     @@ (IF o.op = "wbuf" THEN [bsz |-> o.n, boff |-> n] ELSE <<>>)
     @@ (IF o.op = "fill" THEN [asks |-> Asks(st, o), fills |-> 1, boff |-> n] ELSE <<>>)
     @@ (IF o.op \in {"movector", "moveas"} THEN [took |-> 1] ELSE <<>>)
     @@ (IF o.op = "swap" THEN [took |-> 1] ELSE <<>>)

Post(st, e) == IF e.op = "skip" \/ ~Has(e, "sl") THEN st
               ELSE [st EXCEPT !.bad = IF e.exc = 1 THEN 1 ELSE @,
                               !.sl = Eager(LAMBDA i : [l |-> e.sl[i].l, v |-> e.sl[i].v, cap |-> e.sl[i].cap], Len(st.sl))]

\* ------------------------------------------------------------------ clauses
Done(e) == e.exc = 0 /\ ~Huge(e)
BodyOK(st, e, S) == \A i \in S : e.sl[i].l = WantL(st, e, i) /\ e.sl[i].v = Want(st, e, i)
RetOK(st, e) == Ret(st, e) = -1 \/ e.ret = Ret(st, e)
NoSurprise(e) == e.exc = 1 => (e.af = 1 \/ Huge(e))
Unchanged(st, e, i) == e.sl[i].l = st.sl[i].l /\ e.sl[i].v = st.sl[i].v

V01(st, e) == /\ NoSurprise(e)
              /\ e.acc = 1
              /\ Done(e) => BodyOK(st, e, Touched(e)) /\ RetOK(st, e)
              /\ e.op = "grow" => e.ok = 1
V02(st, e) == e.lt = 0 /\ e.leak = 0
\* capacities seen while appending one element at a time
GrowOK(st, caps) == \A i \in 1..(Len(caps) - 1) :
                       caps[i + 1] >= (IF caps[i] >= st.isz THEN (3 * caps[i]) \div 2 ELSE st.isz)
V03(st, e) ==
  /\ \A i \in DOMAIN e.sl : e.sl[i].cap >= Len(e.sl[i].v)
  /\ Done(e) => LET a == Get(e, "a", 1)  c0 == Cp(st, a)  c1 == e.sl[a].cap  n == Len(e.sl[a].v) IN
       /\ e.op = "resv" => c1 >= e.n /\ c1 >= c0
       /\ e.op = "shrink" => c1 = n
       /\ e.op \in EraseOps => c1 = c0
       /\ e.op \in WriteOps => c1 = c0 /\ e.sl[a].mv = 0
       /\ (e.op \in FitOps /\ (IF e.op = "resv" THEN e.n ELSE Need(st, e)) <= c0) => e.sl[a].mv = 0 /\ c1 = c0
       /\ (e.op \in GeoOps /\ Need(st, e) > c0) => c1 >= (IF c0 >= st.isz THEN (3 * c0) \div 2 ELSE st.isz)
  /\ e.op = "grow" => GrowOK(st, e.caps) /\ e.early = 0
V04(st, e) ==
  /\ \A i \in DOMAIN e.sl \ Touched(e) : Unchanged(st, e, i) /\ e.sl[i].cap = st.sl[i].cap /\ e.sl[i].mv = 0
  /\ (e.op \in CopyOps /\ Done(e)) => BodyOK(st, e, Touched(e))
  /\ (e.op \in {"movector", "moveas"} /\ Done(e) /\ e.a # e.b) => e.took = 1
  /\ (e.op \in {"copyctor", "copyas"} /\ e.exc = 0) => Unchanged(st, e, e.b)
  /\ e.op \in CopyOps => NoSurprise(e)
V05(st, e) == (e.op \in AliasOps /\ NoSurprise(e)) => (Done(e) => BodyOK(st, e, {e.a}) /\ RetOK(st, e)) /\ e.lt = 0 /\ e.leak = 0
V06(st, e) == e.op \in RangeOps => NoSurprise(e) /\ (Done(e) => BodyOK(st, e, {e.a}) /\ RetOK(st, e))
V07(st, e) == e.op = "cmp" => e.c = CmpWant(El(st, e.a), El(st, e.b))
V08(st, e) == /\ (Done(e) /\ (e.op \in BulkOps \/ Get(e, "u", 0) = 1)) => BodyOK(st, e, {e.a}) /\ RetOK(st, e)
              /\ (Done(e) /\ e.op = "wbuf") => e.bsz = e.n /\ e.boff = Len(El(st, e.a))
              /\ (Done(e) /\ e.op = "fill") => e.fills = 1 /\ e.boff = Len(El(st, e.a)) /\ e.asks = Asks(st, e)
              /\ (e.op \in BulkOps) => NoSurprise(e)
V09(st, e) == /\ NoSurprise(e)
              /\ (e.af = 1 \/ Huge(e)) => e.exc = 1
              /\ e.exc = 1 => \A i \in DOMAIN e.sl : Unchanged(st, e, i)
              /\ e.lt = 0 /\ e.leak = 0 /\ e.acc = 1
              /\ (Done(e) /\ st.bad = 1) => BodyOK(st, e, Touched(e))

Clause(p, st, e) ==
  IF e.op = "crash" THEN FALSE
  ELSE IF e.op \in {"skip", "end"} /\ p \notin {"V02", "V09"} THEN TRUE
  ELSE IF e.op \in {"skip", "end"} THEN e.lt = 0 /\ e.leak = 0
  ELSE CASE p = "V01" -> V01(st, e) [] p = "V02" -> V02(st, e) [] p = "V03" -> V03(st, e)
         [] p = "V04" -> V04(st, e) [] p = "V05" -> V05(st, e) [] p = "V06" -> V06(st, e)
         [] p = "V07" -> V07(st, e) [] p = "V08" -> V08(st, e) [] p = "V09" -> V09(st, e)
Broken(st, e) == {p \in Props : ~Clause(p, st, e)}
\* positions recorded by the harness fit the state: guaranteed unless contents went wrong
Sane(st, e) == e.op \in {"skip", "end"} \/ \A i \in DOMAIN e.sl : e.sl[i].v = (IF e.exc = 1 THEN El(st, i) ELSE Want(st, e, i)) /\ e.sl[i].l = (IF e.exc = 1 THEN st.sl[i].l ELSE WantL(st, e, i))
StateOK(st) == \A i \in DOMAIN st.sl : /\ st.sl[i].l \in {0, 1}
                                       /\ st.sl[i].cap >= Len(st.sl[i].v)
                                       /\ st.sl[i].l = 0 => st.sl[i].v = <<>>
=============================================================================
