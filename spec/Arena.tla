------------------------------- MODULE Arena -------------------------------
(* The arena allocator as a state machine over observable events.            *)
(*                                                                           *)
(* st        : abstract state (arenas, their blocks, regions, cleanups)      *)
(* Ref(st,o) : the event a correct implementation produces for operation o   *)
(* Post(st,e): the state after event e, taking the observed placement        *)
(* Clause(p,st,e): what property p says about event e in state st            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Props

Max(a, b) == IF a > b THEN a ELSE b
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE RevSeq(_)
RevSeq(s) == IF s = <<>> THEN <<>> ELSE Append(RevSeq(Tail(s)), Head(s))
RECURSIVE FlatRev(_)
\* concatenation of the reversed sequences, last sequence first
FlatRev(ss) == IF ss = <<>> THEN <<>> ELSE FlatRev(Tail(ss)) \o RevSeq(Head(ss))
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
Up8(n) == ((n + 7) \div 8) * 8
RoundUp(n, m) == ((n + m - 1) \div m) * m

\* object kinds the harness creates: size, alignment, needs destruction
Kinds == [ pod  |-> [sz |-> 24,  al |-> 8,  d |-> FALSE],
           chr  |-> [sz |-> 1,   al |-> 1,  d |-> FALSE],
           tag  |-> [sz |-> 16,  al |-> 8,  d |-> TRUE],
           skip |-> [sz |-> 16,  al |-> 8,  d |-> FALSE],
           aref |-> [sz |-> 24,  al |-> 8,  d |-> TRUE],
           pal  |-> [sz |-> 24,  al |-> 8,  d |-> TRUE],
           ovr  |-> [sz |-> 32,  al |-> 32, d |-> FALSE],
           ovt  |-> [sz |-> 16,  al |-> 16, d |-> TRUE],
           ael  |-> [sz |-> 8,   al |-> 8,  d |-> FALSE],    \* takes the arena, trivial to destroy
           pel  |-> [sz |-> 8,   al |-> 8,  d |-> FALSE],    \* takes an allocator, trivial to destroy
           big  |-> [sz |-> 200, al |-> 8,  d |-> FALSE],
           nst  |-> [sz |-> 32,  al |-> 8,  d |-> TRUE] ]     \* its constructor uses the arena itself

NoRet == [b |-> 0, o |-> 0]
Dead == [live |-> FALSE, inert |-> FALSE, blks |-> <<>>, regs |-> {},
         opt |-> [normal |-> 0, huge |-> 0, init |-> 0],
         hk |-> [i |-> 0, a |-> 0, b |-> 0, r |-> 0, d |-> 0], ck |-> 0, mv |-> FALSE]

InitSt(e) == [hdr |-> e.hdr, node |-> e.node, bm |-> e.bm,
              ar |-> [x \in 1..e.nar |-> Dead],
              ids |-> 0, nt |-> 0, fq |-> <<>>, failed |-> FALSE, moved |-> FALSE, vec |-> {},
              open |-> <<>>]      \* constructions in progress, the innermost last

----------------------------------------------------------------------------
(* block arithmetic *)
Lim(st, b) == b.size - st.node * Len(b.cl)
Waste(b, al) == LET r == (b.base + b.pos) % al IN IF r = 0 THEN 0 ELSE al - r
Fits(st, b, need, al) == b.pos + Waste(b, al) + need <= Lim(st, b)
Room(st, b) == Lim(st, b) - b.pos

\* the documented block size policy
Policy(st, opt, first, min) ==
  LET req == min + st.hdr IN
  IF first THEN Max(opt.init, req)
  ELSE Max(req, IF req <= opt.normal THEN opt.normal
                ELSE IF req <= opt.huge \div 4 THEN RoundUp(min, opt.normal)
                ELSE IF req <= opt.huge THEN opt.huge ELSE 0)

Sizes(blks) == [i \in 1..Len(blks) |-> blks[i].size]
SA(A) == SumSeq(Sizes(A.blks))
SR(st, A) == IF A.blks = <<>> THEN 0 ELSE Room(st, A.blks[Len(A.blks)])
NCl(A) == SumSeq([i \in 1..Len(A.blks) |-> Len(A.blks[i].cl)])
Unused(st, A) == SumSeq([i \in 1..Len(A.blks) |-> Room(st, A.blks[i])])
Cls(A) == [i \in 1..Len(A.blks) |-> A.blks[i].cl]
Obs(st, A) == [l |-> IF A.live THEN 1 ELSE 0, sa |-> IF A.live THEN SA(A) ELSE 0,
               sr |-> IF A.live THEN SR(st, A) ELSE 0, cl |-> IF A.live THEN NCl(A) ELSE 0]
ObsAll(st) == [x \in DOMAIN st.ar |-> Obs(st, st.ar[x])]

----------------------------------------------------------------------------
(* normalised view of an operation: what it wants from the arena *)
\* "nopen" starts a creation: the region is obtained and the constructor starts to run; the operations up to the
\* "nclose" of the same token are performed by that constructor; "nclose" ends it
AllocOps == {"alloc", "allocc", "create", "array", "palloc", "nopen"}
Idle(e) == e.op = "nclose" /\ "rv" \in DOMAIN e /\ e.rv = -1    \* nothing was under construction
RegOps == {"own", "nclose"}
IsAlloc(e) == e.op \in AllocOps
Bytes(e) == CASE e.op \in {"create", "nopen", "nclose"} -> Kinds[e.k].sz
              [] e.op = "array" -> Kinds[e.k].sz * e.n
              [] OTHER -> e.n
Al(e) == CASE e.op \in {"alloc", "palloc"} -> Max(8, e.al)
           [] e.op \in {"create", "array", "nopen"} -> Max(8, Kinds[e.k].al)
           [] OTHER -> 8
WantsClean(e) == e.op \in {"allocc", "own"} \/ (e.op = "nclose" /\ ~Idle(e)) \/ (e.op = "create" /\ Kinds[e.k].d)
Huge(e) == "hg" \in DOMAIN e /\ e.hg = 1

----------------------------------------------------------------------------
(* Reference implementation: produces the event for an operation             *)
NewBlk(st, r, min) ==          \* r = [A, fx, ids, fq, ok]
  LET first == r.A.blks = <<>>
      size == Policy(st, r.A.opt, first, min)
      fails == r.fq # <<>> /\ Head(r.fq) = 1
      fq2 == IF r.fq = <<>> THEN <<>> ELSE Tail(r.fq)
      id == r.ids + 1
      base == st.bm[((id - 1) % Len(st.bm)) + 1]
      hook == IF r.A.hk.b = 1 THEN <<[k |-> "nb", x |-> Len(r.A.blks), n |-> size, c |-> r.A.ck]>> ELSE <<>>
  IN IF fails THEN [r EXCEPT !.fx = Append(@, [k |-> "ba", b |-> 0, n |-> size, m |-> 0]), !.fq = fq2, !.ok = FALSE]
     ELSE [r EXCEPT !.fx = Append(@, [k |-> "ba", b |-> id, n |-> size, m |-> base]) \o hook,
                    !.fq = fq2, !.ids = id,
                    !.A.blks = Append(@, [id |-> id, size |-> size, base |-> base, pos |-> st.hdr, cl |-> <<>>])]

RefAlloc(st, r, n, al) ==
  LET need == Up8(n)
      m == Len(r.A.blks)
      r1 == IF m > 0 /\ Fits(st, r.A.blks[m], need, al) THEN r ELSE NewBlk(st, r, need + (al - 8))
  IN IF ~r1.ok THEN r1
     ELSE LET j == Len(r1.A.blks)
              bk == r1.A.blks[j]
              o == bk.pos + Waste(bk, al)
          IN [r1 EXCEPT !.A.blks[j].pos = o + need, !.ret = [b |-> bk.id, o |-> o], !.am = (bk.base + o) % 64]

RefClean(st, r, t) ==
  LET m == Len(r.A.blks)
      r1 == IF m > 0 /\ Fits(st, r.A.blks[m], st.node, 8) THEN r ELSE NewBlk(st, r, st.node)
  IN IF ~r1.ok THEN r1 ELSE [r1 EXCEPT !.A.blks[Len(r1.A.blks)].cl = Append(@, t)]

CtFx(e) == IF e.op = "nopen" \/ (e.op = "create" /\ e.k \in {"tag", "skip", "aref", "pal", "ovt"})
           THEN <<[k |-> "ct", t |-> e.t]>> ELSE <<>>
ClFx(t) == [k |-> "cl", t |-> t, ok |-> 1]
OaFx(A, e) == IF A.hk.a = 1 /\ e.op \notin {"palloc", "own", "nopen"}
              THEN <<[k |-> "oa", n |-> Bytes(e), c |-> A.ck, ty |-> 1]>> ELSE <<>>

RefRun(st, e) ==
  LET A == st.ar[e.a]
      r0 == [A |-> A, fx |-> <<>>, ids |-> st.ids, fq |-> st.fq, ok |-> TRUE, ret |-> NoRet, am |-> 0]
      r1 == IF IsAlloc(e) THEN RefAlloc(st, r0, Bytes(e), Al(e)) ELSE r0
      r2 == IF r1.ok THEN [r1 EXCEPT !.fx = @ \o CtFx(e)] ELSE r1
      r3 == IF r2.ok /\ WantsClean(e) THEN RefClean(st, r2, e.t) ELSE r2
      r4 == IF r3.ok THEN [r3 EXCEPT !.fx = @ \o OaFx(A, e)]
            ELSE [r3 EXCEPT !.ret = NoRet, !.am = 0,
                            !.fx = @ \o (IF r2.ok /\ (CtFx(e) # <<>> \/ e.op = "nclose") THEN <<ClFx(e.t)>> ELSE <<>>)]
  IN r4

BfSeq(blks) == [i \in 1..Len(blks) |-> [k |-> "bf", b |-> blks[Len(blks) + 1 - i].id]]
RECURSIVE FreeFx(_)
FreeFx(blks) ==    \* cleanups then release of each block, newest first
  IF blks = <<>> THEN <<>>
  ELSE LET b == blks[Len(blks)] IN
       [i \in 1..Len(b.cl) |-> ClFx(b.cl[Len(b.cl) + 1 - i])] \o <<[k |-> "bf", b |-> b.id]>>
         \o FreeFx(SubSeq(blks, 1, Len(blks) - 1))

Base(e) == e @@ [ret |-> NoRet, am |-> 0, rv |-> 0, fx |-> <<>>, bad |-> <<>>, exc |-> "", rs |-> 1]

Classify(st, A, ad) ==
  LET hit == {i \in 1..Len(A.blks) : A.blks[i].id = ad.b} IN
  IF ad.b = 0 \/ hit = {} THEN 0
  ELSE LET b == A.blks[CHOOSE i \in hit : TRUE] IN
       IF ad.o < st.hdr THEN 1 ELSE IF ad.o < b.pos THEN 3 ELSE IF ad.o < Lim(st, b) THEN 4 ELSE 2

RefCore(st, o) ==
  LET A == st.ar[o.a] IN
  CASE o.op = "new" -> [Base(o) EXCEPT !.fx = IF o.hk.i = 1 THEN <<[k |-> "oi", me |-> 1, c |-> o.ck]>> ELSE <<>>]
    [] o.op = "fail" -> Base(o)
    [] IsAlloc(o) /\ Huge(o) -> [Base(o) EXCEPT !.exc = IF o.op = "palloc" THEN "bad_alloc" ELSE ""]
    [] IsAlloc(o) -> LET r == RefRun(st, o) IN
         [Base(o) EXCEPT !.ret = r.ret, !.am = r.am, !.fx = r.fx,
                         !.exc = IF o.op = "palloc" /\ ~r.ok THEN "bad_alloc" ELSE ""]
    [] o.op \in RegOps -> LET r == RefRun(st, o) IN [Base(o) EXCEPT !.rv = IF r.ok THEN 1 ELSE 0, !.fx = r.fx]
    [] o.op = "pdealloc" -> Base(o)
    [] o.op = "peq" -> [Base(o) EXCEPT !.rv = IF o.a2 = o.a THEN 1 ELSE 0]
    [] o.op = "check" -> [Base(o) EXCEPT !.rv = Classify(st, A, o.ad)]
    [] o.op = "reset" ->
         LET n == Len(A.blks)
             rest == IF n = 0 THEN <<>> ELSE SubSeq(A.blks, 2, n)
             hook == IF A.hk.r = 1 THEN <<[k |-> "or", me |-> 1, c |-> A.ck, n |-> SA(A), x |-> Unused(st, A)]>> ELSE <<>>
             head == IF n = 0 THEN <<>> ELSE [i \in 1..Len(A.blks[1].cl) |-> ClFx(RevSeq(A.blks[1].cl)[i])]
         IN [Base(o) EXCEPT !.rv = SA(A), !.fx = FreeFx(rest) \o hook \o head]
    [] o.op = "destroy" ->
         IF A.inert THEN Base(o)
         ELSE [Base(o) EXCEPT !.fx = FreeFx(A.blks) \o
                 (IF A.hk.d = 1 THEN <<[k |-> "od", me |-> 1, c |-> A.ck, n |-> SA(A), x |-> Unused(st, A)]>> ELSE <<>>)]
    [] o.op = "move" -> Base(o)
    [] OTHER -> Base(o)

----------------------------------------------------------------------------
(* State after an event, driven by what was observed                         *)
FilterFx(fx, kinds) == SelectSeq(fx, LAMBDA f : f.k \in kinds)
BaSeq(e) == FilterFx(e.fx, {"ba"})
Failed(e) == \E i \in 1..Len(e.fx) : e.fx[i].k = "ba" /\ e.fx[i].b = 0

RemTok(cl, t) == SelectSeq(cl, LAMBDA x : x # t)
RECURSIVE ApplyFx(_, _, _)
ApplyFx(st, A, fx) ==
  IF fx = <<>> THEN A
  ELSE LET f == Head(fx)
           A2 == CASE f.k = "ba" /\ f.b > 0 ->
                        [A EXCEPT !.blks = Append(@, [id |-> f.b, size |-> f.n, base |-> f.m, pos |-> st.hdr, cl |-> <<>>])]
                   [] f.k = "bf" ->
                        [A EXCEPT !.blks = SelectSeq(@, LAMBDA b : b.id # f.b), !.regs = {g \in @ : g.b # f.b}]
                   [] f.k = "cl" ->
                        [A EXCEPT !.blks = [i \in 1..Len(@) |-> [@[i] EXCEPT !.cl = RemTok(@, f.t)]]]
                   [] OTHER -> A
       IN ApplyFx(st, A2, Tail(fx))

PosOf(A, id, p) == [A EXCEPT !.blks = [i \in 1..Len(@) |-> IF @[i].id = id THEN [@[i] EXCEPT !.pos = p] ELSE @[i]]]
\* trust the reported room for the newest block (used only where the amount consumed is not determined)
PosFromObs(st, A, sr) ==
  IF A.blks = <<>> THEN A
  ELSE LET n == Len(A.blks) IN [A EXCEPT !.blks[n].pos = Max(st.hdr, Lim(st, A.blks[n]) - sr)]

Ok(e) == CASE IsAlloc(e) -> e.ret.b # 0 [] e.op \in RegOps -> e.rv = 1 [] OTHER -> TRUE

Post(st, e) ==
  IF e.op = "fail" THEN [st EXCEPT !.fq = e.f]
  ELSE IF e.op \in {"peq", "check", "pdealloc", "end"} \/ Idle(e) THEN st
  ELSE
  LET A0 == st.ar[e.a]
      A1 == ApplyFx(st, A0, e.fx)
      A2 == IF IsAlloc(e) /\ Ok(e)
            THEN [PosOf(A1, e.ret.b, e.ret.o + Up8(Bytes(e))) EXCEPT
                    !.regs = @ \cup {[b |-> e.ret.b, o |-> e.ret.o, n |-> Bytes(e)]}]
            ELSE IF (IsAlloc(e) /\ ~Huge(e)) \/ e.op \in RegOps \cup {"vpush"} THEN
                 (IF Len(A1.blks) > 0 /\ (~Ok(e) \/ e.op = "vpush") THEN PosFromObs(st, A1, e.obs[e.a].sr) ELSE A1)
            ELSE A1
      A3 == IF WantsClean(e) /\ Ok(e) /\ Len(A2.blks) > 0
            THEN [A2 EXCEPT !.blks[Len(A2.blks)].cl = Append(@, e.t)] ELSE A2
      A4 == CASE e.op = "reset" ->
                   [A3 EXCEPT !.regs = {}, !.blks = [i \in 1..Len(@) |-> [@[i] EXCEPT !.pos = st.hdr, !.cl = <<>>]]]
              [] e.op = "destroy" -> Dead
              [] e.op = "new" -> [Dead EXCEPT !.live = TRUE, !.opt = e.opt, !.hk = e.hk, !.ck = IF e.hk.i = 1 THEN e.ck ELSE 0]
              [] e.op = "move" -> [Dead EXCEPT !.live = TRUE, !.inert = TRUE]
              [] OTHER -> A3
      nba == Len(BaSeq(e))
      ids2 == st.ids + Len(SelectSeq(BaSeq(e), LAMBDA f : f.b > 0))
      st1 == [st EXCEPT !.ar[e.a] = A4, !.fq = Drop(@, nba), !.ids = ids2,
                        !.failed = @ \/ Failed(e), !.moved = @ \/ e.op = "move",
                        !.nt = IF "t" \in DOMAIN e THEN Max(@, e.t) ELSE @,
                        !.open = IF e.op = "nopen" /\ Ok(e) THEN Append(@, [a |-> e.a, t |-> e.t])
                                 ELSE IF e.op = "nclose" THEN SelectSeq(@, LAMBDA c : c.t # e.t) ELSE @]
  IN IF e.op = "move" THEN [st1 EXCEPT !.ar[e.a2] = [A0 EXCEPT !.mv = TRUE]] ELSE st1

Ref(st, o) == LET e0 == RefCore(st, o) @@ [obs |-> ObsAll(st)]
                  \* a failed multi-step operation may have consumed room: recompute from the reference run
                  s1 == IF (IsAlloc(o) \/ o.op \in RegOps) /\ ~Huge(o)
                        THEN LET r == RefRun(st, o) IN [st EXCEPT !.ar[o.a] = r.A]
                        ELSE Post(st, e0)
              IN [e0 EXCEPT !.obs = ObsAll(s1)]

----------------------------------------------------------------------------
(* Clauses *)
Disj(a, b) == a.b # b.b \/ a.n = 0 \/ b.n = 0 \/ a.o + a.n <= b.o \/ b.o + b.n <= a.o

InBlock(st, A, g) == \E i \in 1..Len(A.blks) :
   A.blks[i].id = g.b /\ g.o >= st.hdr /\ g.o + g.n <= Lim(st, A.blks[i])

Crash(e) == e.op = "crash"

ClA01(st, e) ==
  /\ e.bad = <<>>
  /\ (IsAlloc(e) /\ Ok(e)) =>
       LET A0 == st.ar[e.a]
           A == Post(st, e).ar[e.a]
           g == [b |-> e.ret.b, o |-> e.ret.o, n |-> Bytes(e)]
           old == ApplyFx(st, A0, e.fx).regs
       IN InBlock(st, A, g) /\ \A h \in old : Disj(g, h)
  /\ (e.op \in AllocOps \cup RegOps) =>
       LET A == Post(st, e).ar[e.a] IN \A g \in A.regs : g.b > 0 => InBlock(st, A, g)

ClA02(st, e) == (IsAlloc(e) /\ Ok(e)) => e.am % Al(e) = 0

Toks(e) == LET s == FilterFx(e.fx, {"cl"}) IN [i \in 1..Len(s) |-> s[i].t]
\* a cleanup of block b's records never comes after the release of b
ClBeforeBf(A, e) == \A i, j \in 1..Len(e.fx) :
   (i < j /\ e.fx[i].k = "bf" /\ e.fx[j].k = "cl") =>
      ~ \E b \in 1..Len(A.blks) : A.blks[b].id = e.fx[i].b /\ e.fx[j].t \in Range(A.blks[b].cl)

ClA03(st, e) ==
  LET A == IF "a" \in DOMAIN e THEN st.ar[e.a] ELSE Dead
      want == IF e.op \in {"reset", "destroy"} THEN FlatRev(Cls(A)) ELSE <<>>
      got == IF e.op \in {"create", "nclose"} /\ ~Ok(e) THEN SelectSeq(Toks(e), LAMBDA t : t # e.t) ELSE Toks(e)
  IN /\ got = want
     /\ \A i \in 1..Len(e.fx) : e.fx[i].k = "cl" => e.fx[i].ok = 1
     /\ ClBeforeBf(A, e)

Bfs(e) == LET s == FilterFx(e.fx, {"bf"}) IN [i \in 1..Len(s) |-> s[i].b]
Ids(A) == [i \in 1..Len(A.blks) |-> A.blks[i].id]
ClA04(st, e) ==
  LET A == IF "a" \in DOMAIN e THEN st.ar[e.a] ELSE Dead
      got == Bfs(e)
      want == CASE e.op = "destroy" -> Range(Ids(A))
                [] e.op = "reset" -> (IF A.blks = <<>> THEN {} ELSE Range(Ids(A)) \ {A.blks[1].id})
                [] OTHER -> {}
  IN /\ Range(got) = want /\ Len(got) = Cardinality(want)
     /\ (e.op = "reset" /\ A.blks # <<>>) =>
           (e.obs[e.a].sr = A.blks[1].size - st.hdr /\ e.obs[e.a].sa = A.blks[1].size /\ e.obs[e.a].cl = 0)
     /\ (e.op = "reset" /\ A.blks = <<>>) => (e.obs[e.a].sa = 0 /\ e.obs[e.a].cl = 0)
     /\ e.op = "end" => e.out = 0

Hooks(e) == FilterFx(e.fx, {"oi", "oa", "nb", "or", "od"})
NbFx(st, A, e) ==     \* expected new-block reports for the blocks actually obtained
  LET bs == SelectSeq(BaSeq(e), LAMBDA f : f.b > 0)
  IN IF A.hk.b = 1 THEN [i \in 1..Len(bs) |-> [k |-> "nb", x |-> Len(A.blks) + i - 1, n |-> bs[i].n, c |-> A.ck]] ELSE <<>>
WantHooks(st, e) ==
  LET A == st.ar[e.a] IN
  CASE e.op = "new" -> IF e.hk.i = 1 THEN <<[k |-> "oi", me |-> 1, c |-> e.ck]>> ELSE <<>>
    [] IsAlloc(e) -> NbFx(st, A, e) \o (IF Ok(e) THEN OaFx(A, e) ELSE <<>>)
    [] e.op = "nclose" -> NbFx(st, A, e) \o (IF Ok(e) THEN OaFx(A, e) ELSE <<>>)
    [] e.op \in {"own", "vpush"} -> NbFx(st, A, e)
    [] e.op = "reset" -> IF A.hk.r = 1 THEN <<[k |-> "or", me |-> 1, c |-> A.ck, n |-> SA(A), x |-> Unused(st, A)]>> ELSE <<>>
    [] e.op = "destroy" /\ ~A.inert ->
         IF A.hk.d = 1 THEN <<[k |-> "od", me |-> 1, c |-> A.ck, n |-> SA(A), x |-> Unused(st, A)]>> ELSE <<>>
    [] OTHER -> <<>>
ClA05(st, e) ==
  IF e.op = "end" THEN TRUE ELSE
  /\ Hooks(e) = WantHooks(st, e)
  /\ e.op = "reset" => e.rv = SA(st.ar[e.a])
  /\ LET s2 == Post(st, e) IN
     \A x \in DOMAIN s2.ar : s2.ar[x].inert \/ e.obs[x] = Obs(s2, s2.ar[x])

CtCount(e) == Len(SelectSeq(e.fx, LAMBDA f : f.k = "ct"))
\* sizes the operation may ask the block allocator for, given what it got
RECURSIVE BaOk(_, _, _, _)
Candidates(st, A, min, al) == {Policy(st, A.opt, A.blks = <<>>, min), Policy(st, A.opt, A.blks = <<>>, min + (al - 8))}
\* steps: sequence of [need, al, clean]; bs: observed requests; TRUE iff requests are exactly those needed
BaOk(st, A, steps, bs) ==
  IF steps = <<>> THEN bs = <<>>
  ELSE LET s == Head(steps)
           n == Len(A.blks)
           fits == n > 0 /\ Fits(st, A.blks[n], s.need, s.al)
           Use(AA) == LET j == Len(AA.blks) bk == AA.blks[j] IN
                      IF s.clean THEN [AA EXCEPT !.blks[j].cl = Append(@, 0)]
                      ELSE [AA EXCEPT !.blks[j].pos = bk.pos + Waste(bk, s.al) + s.need]
       IN IF fits THEN BaOk(st, Use(A), Tail(steps), bs)
          ELSE /\ bs # <<>>
               /\ Head(bs).n \in Candidates(st, A, s.need, s.al)
               /\ IF Head(bs).b = 0 THEN Tail(bs) = <<>>
                  ELSE LET b == Head(bs) IN
                    BaOk(st, Use([A EXCEPT !.blks = Append(@, [id |-> b.b, size |-> b.n, base |-> b.m, pos |-> st.hdr, cl |-> <<>>])]),
                         Tail(steps), Tail(bs))
Steps(st, e) == (IF IsAlloc(e) THEN <<[need |-> Up8(Bytes(e)), al |-> Al(e), clean |-> FALSE]>> ELSE <<>>)
             \o (IF WantsClean(e) THEN <<[need |-> st.node, al |-> 8, clean |-> TRUE]>> ELSE <<>>)
ClA07(st, e) ==
  IF e.op \in {"end", "vpush"} \/ Huge(e) THEN TRUE
  ELSE BaOk(st, IF "a" \in DOMAIN e THEN st.ar[e.a] ELSE Dead, Steps(st, e), BaSeq(e))

Core(st, e) == ClA01(st, e) /\ ClA02(st, e) /\ ClA03(st, e) /\ ClA04(st, e) /\ ClA05(st, e) /\ ClA07(st, e)

\* room left in the newest block by a failed operation: untouched, except that an operation which
\* obtained its region and then failed to register its cleanup may have consumed that region
RoomsAfterFailure(st, e) ==
  LET A == ApplyFx(st, st.ar[e.a], e.fx)
      n == Len(A.blks)
      had == IF n = 0 THEN 0 ELSE Room(st, A.blks[n])
  IN {had} \cup (IF n > 0 /\ IsAlloc(e) /\ WantsClean(e) /\ Fits(st, A.blks[n], Up8(Bytes(e)), Al(e))
                 THEN {had - Waste(A.blks[n], Al(e)) - Up8(Bytes(e))} ELSE {})

ClA06(st, e) ==
  /\ (IsAlloc(e) \/ e.op \in RegOps) /\ ~Huge(e) /\ ~Idle(e) => (Ok(e) <=> ~Failed(e))
  /\ (Failed(e) /\ e.op # "vpush") =>
       /\ FilterFx(e.fx, {"oa"}) = <<>>
       /\ e.obs[e.a].cl = NCl(st.ar[e.a])
       /\ e.obs[e.a].sr \in RoomsAfterFailure(st, e)
       /\ \A t \in (IF "t" \in DOMAIN e THEN {e.t} ELSE {}) :      \* what was constructed is destroyed
             Len(SelectSeq(e.fx, LAMBDA f : f.k = "ct" /\ f.t = t)) + (IF e.op = "nclose" THEN 1 ELSE 0)
               = Len(SelectSeq(e.fx, LAMBDA f : f.k = "cl" /\ f.t = t))
  /\ (st.failed \/ Failed(e)) => Core(st, e)

ClA08(st, e) ==
  e.op = "check" => /\ e.rv = Classify(st, st.ar[e.a], e.ad)
                    /\ e.fx = <<>> /\ e.bad = <<>>
                    /\ \A x \in DOMAIN st.ar : st.ar[x].inert \/ e.obs[x] = Obs(st, st.ar[x])

ClA09(st, e) ==
  /\ e.op = "move" => e.fx = <<>>
  /\ (e.op = "destroy" /\ st.ar[e.a].inert) => e.fx = <<>>
  /\ (e.op # "end" /\ (st.moved \/ e.op = "move")) => (e.rs = 1 /\ Core(st, e))
  /\ (e.op = "end" /\ st.moved) => ClA04(st, e)

PmrOps == {"palloc", "pdealloc", "peq", "vpush"}
ClA10(st, e) ==
  /\ e.op = "palloc" => /\ e.exc = (IF Failed(e) \/ Huge(e) THEN "bad_alloc" ELSE "")
                        /\ (e.exc = "") <=> (e.ret.b # 0)
                        /\ Core(st, e)
  /\ e.op = "pdealloc" => e.fx = <<>> /\ e.bad = <<>> /\ ClA05(st, e)
  /\ e.op = "peq" => e.rv = (IF e.a = e.a2 THEN 1 ELSE 0)
  /\ e.op = "vpush" => /\ e.bad = <<>>
                       /\ (e.exc = "bad_alloc") = Failed(e)
                       /\ (e.exc = "" /\ e.n > 0) =>
                            InBlock(st, Post(st, e).ar[e.a], [b |-> e.ret.b, o |-> e.ret.o, n |-> e.n])
  /\ ((e.op = "nopen" \/ (e.op \in {"create", "array"} /\ e.k \in {"aref", "pal", "ael", "pel"})) /\ Ok(e)) => e.rs = 1

ClA11(st, e) ==
  Huge(e) => /\ e.ret.b = 0
             /\ e.op = "palloc" => e.exc = "bad_alloc"
             /\ e.op = "array" => e.fx = <<>>
             /\ \A i \in 1..Len(e.fx) : e.fx[i].k = "ba" /\ e.fx[i].b = 0 /\ (e.fx[i].n < 0 \/ e.fx[i].n = 2147483647)
             /\ \A x \in DOMAIN st.ar : e.obs[x] = Obs(st, st.ar[x])
             /\ e.bad = <<>>

Clause(p, st, e) ==
  IF Crash(e) THEN FALSE
  ELSE CASE p = "A01" -> ClA01(st, e) [] p = "A02" -> ClA02(st, e) [] p = "A03" -> ClA03(st, e)
         [] p = "A04" -> ClA04(st, e) [] p = "A05" -> ClA05(st, e) [] p = "A06" -> ClA06(st, e)
         [] p = "A07" -> ClA07(st, e) [] p = "A08" -> ClA08(st, e) [] p = "A09" -> ClA09(st, e)
         [] p = "A10" -> ClA10(st, e) [] p = "A11" -> ClA11(st, e)
Broken(st, e) == {p \in Props : ~Clause(p, st, e)}

\* the event can be followed at all (otherwise the rest of the behaviour is not judged)
Sane(st, e) == (IsAlloc(e) /\ Ok(e)) => \E i \in 1..Len(ApplyFx(st, st.ar[e.a], e.fx).blks) :
                                            ApplyFx(st, st.ar[e.a], e.fx).blks[i].id = e.ret.b

----------------------------------------------------------------------------
(* Operations that may be performed: an arena is not reset, destroyed or moved from while it constructs an object *)
Building(st) == {st.open[i].a : i \in 1..Len(st.open)}
Legal(st, o) == o.op \in {"reset", "destroy", "move"} => o.a \notin Building(st)

(* State invariants of the specification itself *)
StateOK(st) ==
  \A x \in DOMAIN st.ar : LET A == st.ar[x] IN A.live /\ ~A.inert =>
     /\ \A g, h \in A.regs : g = h \/ Disj(g, h)
     /\ \A g \in A.regs : InBlock(st, A, g)
     /\ \A i \in 1..Len(A.blks) : A.blks[i].pos <= Lim(st, A.blks[i]) /\ A.blks[i].pos >= st.hdr
     /\ \A i, j \in 1..Len(A.blks) : i # j => A.blks[i].id # A.blks[j].id
     /\ \A i \in 1..Len(st.open) : st.open[i].a = x => A.live
     /\ \A y \in DOMAIN st.ar : y # x => Range(Ids(A)) \cap Range(Ids(st.ar[y])) = {}
=============================================================================
