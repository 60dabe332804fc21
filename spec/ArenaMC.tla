------------------------------ MODULE ArenaMC ------------------------------
(* Bounded exploration of the arena model, and generation of behaviours.     *)
(* Every reachable step of the reference machine is checked against every    *)
(* property clause; each step is also printed as a test behaviour.           *)
EXTENDS Arena, Json, Randomization

CONSTANTS Profile,  \* which alphabet of operations
          Mode,     \* "bfs" (small alphabet), "sim" (large alphabet) or "flat" (as sim, constructors leave the arena alone)
          Depth     \* number of operations per behaviour

VARIABLES st, hist, seed
vars == <<st, hist, seed>>
View == st

Big == Mode # "bfs"
Opt(n, h, i) == [normal |-> n, huge |-> h, init |-> i]
AllHk == [i |-> 1, a |-> 1, b |-> 1, r |-> 1, d |-> 1]
NoHk == [i |-> 0, a |-> 0, b |-> 0, r |-> 0, d |-> 0]

\* alphabets -------------------------------------------------------------
Ns == CASE Profile = "A07" -> IF Big THEN {0, 1, 8, 31, 32, 33, 64, 95, 96, 97, 100, 128, 160, 216, 217, 224, 225, 228, 256, 480, 481, 700, 984, 992, 993, 1000, 1100, 2016, 2100}
                              ELSE {8, 56, 64, 72, 88, 96, 97, 104, 216, 224, 225, 240, 600, 984, 985, 992, 993}
        [] Big -> {0, 1, 7, 8, 9, 16, 24, 31, 32, 33, 40, 48, 64, 72, 100, 130, 250, 300, 1500, 2100}
        [] Profile = "A02" -> {1, 8, 33}
        [] Profile = "A05" -> {8, 33}
        [] OTHER -> {0, 8, 33, 64}
Als == IF Profile \in {"A01", "A02"} \/ Big THEN {8, 16, 32} ELSE {8, 32}
Ks == CASE Profile \in {"A03"} -> {"tag", "skip", "pod", "ovt"}
        [] Profile = "A02" -> {"chr", "ovr", "ovt", "pod"}
        [] Profile \in {"A10"} -> {"aref", "pal", "ael", "pel"}
        [] Profile \in {"A06"} -> {"tag", "pod"}
        [] Big -> {"pod", "chr", "tag", "skip", "aref", "pal", "ovr", "ovt", "big"}
        [] OTHER -> {"pod", "tag", "ovr"}
Slots == IF Profile \in {"A09", "A10", "A08"} \/ Big THEN 1..2 ELSE {1}
NAr == 3

Configs ==
  LET o1 == Opt(128, 1024, 96)   \* small blocks: growth happens at once
      o2 == Opt(256, 2048, 64)
      o3 == Opt(128, 512, 200)
  IN CASE Profile = "A05" -> {[bm |-> <<0, 16>>, opt |-> o1, hk |-> AllHk],
                              [bm |-> <<16>>, opt |-> o1, hk |-> NoHk],
                              [bm |-> <<0>>, opt |-> o1, hk |-> [AllHk EXCEPT !.b = 0, !.i = 0]],
                              [bm |-> <<0>>, opt |-> o1, hk |-> [AllHk EXCEPT !.a = 0, !.d = 0]],
                              [bm |-> <<0>>, opt |-> o1, hk |-> [NoHk EXCEPT !.r = 1]]}
       [] Big -> {[bm |-> m, opt |-> o, hk |-> AllHk] : m \in {<<0, 16, 8, 48>>, <<24, 0, 40, 56>>}, o \in {o1, o2, o3}}
       [] Profile = "A07" -> {[bm |-> <<0>>, opt |-> o1, hk |-> AllHk], [bm |-> <<16>>, opt |-> Opt(128, 1024, 1), hk |-> AllHk]}
       [] Profile = "A02" -> {[bm |-> <<m, 24>>, opt |-> o1, hk |-> AllHk] : m \in {0, 16, 56}}
       [] OTHER -> {[bm |-> <<0, 24>>, opt |-> o1, hk |-> AllHk], [bm |-> <<16, 8>>, opt |-> o1, hk |-> AllHk]}

Live(s) == {a \in DOMAIN s.ar : s.ar[a].live /\ ~s.ar[a].inert}
Gone(s) == {a \in DOMAIN s.ar : ~s.ar[a].live}
LiveOrInert(s) == {a \in DOMAIN s.ar : s.ar[a].live}

T(s) == s.nt + 1
Alloc(s) == {[op |-> "alloc", a |-> a, n |-> n, al |-> al] : a \in Live(s), n \in Ns, al \in IF Profile = "A07" /\ ~Big THEN {8} ELSE Als}
            \cup (IF Profile = "A07" /\ ~Big THEN {[op |-> "alloc", a |-> a, n |-> n, al |-> 32] : a \in Live(s), n \in {8, 72, 200, 968}} ELSE {})
Allocc(s) == {[op |-> "allocc", a |-> a, n |-> n, t |-> T(s), x |-> x] :
                 a \in Live(s), n \in (IF Big THEN Ns ELSE {8, 100}), x \in (IF Big \/ Profile = "A03" THEN {0, 1, 2} ELSE {0, 1})}
Create(s) == {[op |-> "create", a |-> a, k |-> k, t |-> T(s)] : a \in Live(s), k \in Ks}
Array(s) == {[op |-> "array", a |-> a, k |-> k, n |-> n] : a \in Live(s), k \in (IF Profile = "A10" THEN {"ael", "pel"} ELSE {"pod", "chr", "ovr"}),
                 n \in (IF Big THEN {0, 1, 2, 3, 5, 9} ELSE {0, 3})}
Own(s) == {[op |-> "own", a |-> a, t |-> T(s)] : a \in Live(s)}
Reset(s) == {[op |-> "reset", a |-> a] : a \in Live(s)}
Destroy(s) == {[op |-> "destroy", a |-> a] : a \in LiveOrInert(s)}
New(s) == LET g == Gone(s) IN IF g = {} THEN {} ELSE
            {[op |-> "new", a |-> (CHOOSE a \in g : TRUE), opt |-> o, hk |-> AllHk, ck |-> 100 + Len(hist)] : o \in {Opt(128, 1024, 64)}}
Move(s) == {[op |-> "move", a |-> a, a2 |-> b] : a \in Live(s), b \in Gone(s)}
Palloc(s) == {[op |-> "palloc", a |-> a, n |-> n, al |-> al] : a \in Live(s), n \in (IF Big THEN Ns ELSE {1, 33, 100}),
                 al \in {1, 8, 32}}
Pdealloc(s) == {[op |-> "pdealloc", a |-> g[1], b |-> g[2].b, o |-> g[2].o, n |-> g[2].n] :
                  g \in {<<a, r>> \in Live(s) \X UNION {s.ar[x].regs : x \in Live(s)} : r \in s.ar[a].regs}}
Peq(s) == {[op |-> "peq", a |-> a, a2 |-> b] : a \in Live(s), b \in Live(s) \cup {0}}
Vpush(s) == {[op |-> "vpush", a |-> a, x |-> 2] : a \in Live(s)}
Fail(s) == IF s.fq # <<>> THEN {} ELSE {[op |-> "fail", f |-> f] : f \in (IF Big THEN {<<1>>, <<0, 1>>, <<1, 1>>, <<1, 0, 1>>, <<0, 0, 1>>} ELSE {<<1>>, <<0, 1>>})}
\* probes: block-relative offsets around every boundary
Probe(s) == UNION {UNION {{[op |-> "check", a |-> a, ad |-> [b |-> bk.id, o |-> o]] :
               o \in {x \in {0, s.hdr - 1, s.hdr, bk.pos - 1, bk.pos, Lim(s, bk) - 1, Lim(s, bk), bk.size - 1, s.hdr + 7, bk.pos + 3, Lim(s, bk) - 9} : x >= 0 /\ x < bk.size}}
               : bk \in {s.ar[c].blks[i] : c \in {a}, i \in 1..Len(s.ar[a].blks)}} : a \in Live(s)}
   \cup UNION {{[op |-> "check", a |-> a, ad |-> [b |-> s.ar[c].blks[i].id, o |-> o]] : o \in {0, 40}, i \in {j \in 1..1 : j <= Len(s.ar[c].blks)}}
               : a \in Live(s), c \in Live(s)}
   \cup {[op |-> "check", a |-> a, ad |-> [b |-> 0, o |-> o]] : a \in Live(s), o \in 0..21}
HugeAlloc(s) == {[op |-> "alloc", a |-> a, n |-> n, al |-> al, hg |-> 1] : a \in Live(s),
                   n \in (IF Big THEN {-1, -2, -7, -8, -9, -15, -16, -31, -32, -33, -39, -40, -41, -64, -100, -4096} ELSE {-1, -7, -8, -32, -40, -4096}), al \in {8, 32}}
     \cup {[op |-> "palloc", a |-> a, n |-> n, al |-> 8, hg |-> 1] : a \in Live(s), n \in {-1, -16, -40}}
     \cup {[op |-> "allocc", a |-> a, n |-> n, t |-> T(s), x |-> 1, hg |-> 1] : a \in Live(s), n \in {-1, -24, -33}}
     \cup {[op |-> "array", a |-> a, k |-> k, n |-> n, hg |-> 1] : a \in Live(s), k \in {"pod", "u64", "ovr"}, n \in {-1, -2, -3, 1, 2, 3, 162, 163}}
     \cup {[op |-> "array", a |-> a, k |-> k, n |-> n, hg |-> 1] : a \in Live(s), k \in {"pod", "ovr"}, n \in {160, 161}}

\* constructors that use the arena
Nest(s) == (IF Len(s.open) >= 2 THEN {} ELSE {[op |-> "nopen", a |-> a, k |-> "nst", t |-> T(s)] : a \in Live(s)})
           \cup (IF s.open = <<>> THEN {} ELSE LET c == s.open[Len(s.open)] IN
                  {[op |-> "nclose", a |-> c.a, k |-> "nst", t |-> c.t]})
NestOps(s) == IF Mode # "flat" /\ (Profile \in {"A03", "A06"} \/ (Big /\ Profile \in {"A01", "A05", "A07", "A10"})) THEN Nest(s) ELSE {}

Small(s) == {[op |-> "alloc", a |-> a, n |-> n, al |-> 8] : a \in Live(s), n \in {0, 8, 24, 64}}
            \cup {[op |-> "create", a |-> a, k |-> k, t |-> T(s)] : a \in Live(s), k \in {"tag", "pod"}}
ProfOps(s) ==
  CASE Profile = "A01" -> Alloc(s) \cup Allocc(s) \cup Array(s) \cup Reset(s) \cup Own(s) \cup (IF Big THEN Create(s) \cup Palloc(s) \cup New(s) \cup Destroy(s) ELSE {})
    [] Profile = "A02" -> Alloc(s) \cup Create(s) \cup Array(s) \cup (IF Big THEN Palloc(s) \cup Reset(s) \cup Own(s) ELSE {})
    [] Profile = "A03" -> Small(s) \cup Allocc(s) \cup Create(s) \cup Own(s) \cup Reset(s) \cup Destroy(s)
    [] Profile = "A04" -> Small(s) \cup Alloc(s) \cup Own(s) \cup Reset(s) \cup Destroy(s) \cup New(s)
    [] Profile = "A05" -> Small(s) \cup Alloc(s) \cup Create(s) \cup Allocc(s) \cup Array(s) \cup Own(s) \cup Reset(s) \cup Destroy(s)
    [] Profile = "A06" -> Small(s) \cup Create(s) \cup Fail(s) \cup Own(s) \cup Allocc(s) \cup Reset(s) \cup (IF Big THEN Alloc(s) \cup Array(s) \cup New(s) \cup Destroy(s) ELSE {})
    [] Profile = "A07" -> Alloc(s) \cup Own(s) \cup Reset(s) \cup Create(s) \cup (IF Big THEN Allocc(s) ELSE {})
    [] Profile = "A08" -> Small(s) \cup Own(s) \cup Reset(s) \cup New(s) \cup Destroy(s) \cup Probe(s) \cup (IF Big THEN Alloc(s) ELSE {})
    [] Profile = "A09" -> Small(s) \cup Move(s) \cup Reset(s) \cup Destroy(s) \cup Own(s) \cup {[op |-> "palloc", a |-> a, n |-> 40, al |-> 8] : a \in Live(s)}
                          \cup (IF Big THEN Alloc(s) \cup Create(s) \cup Palloc(s) ELSE {})
    [] Profile = "A10" -> Palloc(s) \cup Pdealloc(s) \cup Peq(s) \cup Vpush(s) \cup Create(s) \cup Array(s) \cup Reset(s) \cup Fail(s) \cup New(s)
    [] Profile = "A11" -> Small(s) \cup HugeAlloc(s) \cup Reset(s) \cup (IF Big THEN Own(s) ELSE {})

Ops(s) == {o \in NestOps(s) \cup ProfOps(s) : Legal(s, o)}

\* drop operations whose effect the model leaves to observation
Modelled(o) == o.op # "vpush"
Pick(S) == IF Big THEN (IF S = {} THEN {} ELSE RandomSubset(1, S)) ELSE S

BeginOf(c) == [op |-> "begin", hdr |-> 32, node |-> 16, nar |-> NAr, bm |-> c.bm]
Init == \E c \in Configs :
          LET s0 == InitSt(BeginOf(c))
              o == [op |-> "new", a |-> 1, opt |-> c.opt, hk |-> c.hk, ck |-> 7]
          IN /\ st = Post(s0, Ref(s0, o))
             /\ hist = <<BeginOf(c), o>>
             /\ seed = 0

Fields(o) == o   \* operations are printed as they are
Emit(h) == IF Mode = "bfs" THEN PrintT("B " \o ToJson(h))
           ELSE IF Len(h) = Depth + 2 THEN PrintT("B " \o ToJson(h)) ELSE TRUE

Step(o) ==
  LET e == Ref(st, o) IN
  /\ IF Modelled(o)
     THEN /\ Assert(Broken(st, e) = {}, <<"reference violates", Broken(st, e), e, st>>)
          /\ st' = Post(st, e)
     ELSE st' = [st EXCEPT !.nt = @]
  /\ hist' = Append(hist, o)
  /\ seed' = seed
  /\ Emit(hist')

Next == /\ Len(hist) < Depth + 2
        /\ \E o \in Pick(Ops(st)) : Step(o)
Spec == Init /\ [][Next]_vars
Inv == StateOK(st)
=============================================================================
