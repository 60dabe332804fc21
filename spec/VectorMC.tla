------------------------------ MODULE VectorMC ------------------------------
(* Bounded exploration of the vector model and generation of behaviours.     *)
EXTENDS Vector, Json, Randomization

CONSTANTS Profile, Mode, Depth

VARIABLES st, hist
vars == <<st, hist>>
View == st
Big == Mode = "sim"
NS == 3
MaxLen == IF Big THEN 40 ELSE 9

Alive(s) == {i \in 1..NS : s.sl[i].l = 1}
Gone(s) == {i \in 1..NS : s.sl[i].l = 0}
\* in the exhaustive mode single-vector profiles work on slot 1 only
Tg(s) == IF Big \/ Profile \in {"V04", "V02"} THEN Alive(s) ELSE {1} \cap Alive(s)
L(s, a) == Len(El(s, a))
Pos(s, a) == IF Big THEN LET n == L(s, a) IN {p \in {0, 1, 2, 3, n \div 2, n - 2, n - 1, n} : p >= 0 /\ p <= n} ELSE 0..L(s, a)
Idx(s, a) == {p \in Pos(s, a) : p < L(s, a)}
Xs == IF Big THEN {-3, 0, 1, 2, 5, 100} \cup (IF Profile \in {"V01", "V07"} THEN {2147483647, -2147483647} ELSE {}) ELSE {1, 5}
X1 == IF Big THEN Xs ELSE {5}
Cnt == IF Big THEN {1, 2, 3, 5, 8, 17} ELSE {1, 2, 3}
Rs == IF Big THEN {<<>>, <<7>>, <<7, 8>>, <<-1, 0, 1>>, <<1, 2, 3, 4, 5>>, Rep(9, 4), [i \in 1..17 |-> i]} ELSE {<<>>, <<7>>, <<8, 9>>, <<7, 8, 9>>}
Kinds == CASE Profile = "V06" -> {"vec", "cvec", "ptr", "lst", "dq", "rev", "rvec", "oth", "fwd", "il", "set", "flt"}
           [] Big -> {"vec", "ptr", "lst", "il", "oth"}
           [] OTHER -> {"ptr", "lst"}
K1 == IF Profile = "V06" \/ Big THEN Kinds ELSE {"ptr"}
Us(s, a, n) == IF L(s, a) + n <= Cp(s, a) /\ (Profile \in {"V08", "V01", "V05"} \/ Big) THEN {0, 1} ELSE {0}

Ctors(s) == LET g == Gone(s) IN IF g = {} THEN {} ELSE LET a == CHOOSE x \in g : TRUE IN
     {[op |-> "ctor0", a |-> a]} \cup {[op |-> "ctorn", a |-> a, n |-> n] : n \in {0} \cup Cnt}
     \cup {[op |-> "ctornv", a |-> a, n |-> n, x |-> x] : n \in {0} \cup Cnt, x \in X1}
     \cup {[op |-> "ctorr", a |-> a, k |-> k, vs |-> v] : k \in K1, v \in Rs}
Copies(s) == LET g == Gone(s) IN IF g = {} THEN {} ELSE LET a == CHOOSE x \in g : TRUE IN
     {[op |-> o, a |-> a, b |-> b] : o \in {"copyctor", "movector"}, b \in Alive(s)}
Assigns(s) == {[op |-> o, a |-> a, b |-> b] : o \in {"copyas", "moveas"}, a \in Alive(s), b \in Alive(s)}
Swaps(s) == {[op |-> "swap", a |-> a, b |-> b, s |-> x] : a \in Alive(s), b \in Alive(s), x \in {0, 1}}
Destroys(s) == {[op |-> "destroy", a |-> a] : a \in Alive(s)}
AssignN(s) == {[op |-> "assignn", a |-> a, n |-> n, x |-> x] : a \in Tg(s), n \in {0} \cup Cnt, x \in X1}
AssignR(s) == {[op |-> "assignr", a |-> a, k |-> k, vs |-> v] : a \in Tg(s), k \in K1, v \in Rs}
Push(s) == UNION {{[op |-> o, a |-> a, x |-> x, u |-> u] : o \in {"push", "pushm", "eback"}, x \in X1, u \in Us(s, a, 1)} : a \in Tg(s)}
Ins(s) == UNION {{[op |-> o, a |-> a, p |-> p, x |-> x, u |-> u] : o \in {"ins", "insm", "empl", "empi"}, p \in Pos(s, a), x \in X1, u \in Us(s, a, 1)} : a \in Tg(s)}
InsN(s) == UNION {UNION {{[op |-> "insn", a |-> a, p |-> p, n |-> n, x |-> x, u |-> u] : p \in Pos(s, a), x \in X1, u \in Us(s, a, n)} : n \in Cnt} : a \in Tg(s)}
InsR(s) == UNION {UNION {{[op |-> "insr", a |-> a, p |-> p, k |-> k, vs |-> v, u |-> u] : p \in Pos(s, a), k \in K1, u \in Us(s, a, Len(v))} : v \in Rs} : a \in Tg(s)}
Erase(s) == UNION {{[op |-> "er", a |-> a, p |-> p, c |-> c] : p \in Idx(s, a), c \in {0, 1}} : a \in Tg(s)}
EraseR(s) == UNION {{[op |-> "err", a |-> a, p |-> pq[1], q |-> pq[2], c |-> c] : pq \in {x \in Pos(s, a) \X Pos(s, a) : x[1] <= x[2]}, c \in {0, 1}} : a \in Tg(s)}
EraseV(s) == {[op |-> o, a |-> a, x |-> x, s |-> sd] : o \in {"erv", "erif"}, a \in Tg(s), x \in Xs, sd \in {0, 1}}
Pop(s) == {[op |-> "pop", a |-> a] : a \in {b \in Tg(s) : L(s, b) > 0}}
Resize(s) == {[op |-> "rsz", a |-> a, n |-> n] : a \in Tg(s), n \in {0, 6} \cup Cnt} \cup {[op |-> "rszv", a |-> a, n |-> n, x |-> x] : a \in Tg(s), n \in {0, 6} \cup Cnt, x \in X1}
CapOps(s) == UNION {{[op |-> "resv", a |-> a, n |-> n] : n \in {0, 1, 4, 7} \cup (IF Big THEN {12, 33, L(s, a) + 1, L(s, a) + 2, L(s, a) + 3} ELSE {})} : a \in Tg(s)}
             \cup {[op |-> o, a |-> a] : o \in {"shrink", "clear"}, a \in Tg(s)}
Bulk(s) == UNION {UNION {{[op |-> "wbuf", a |-> a, n |-> n, vs |-> [i \in 1..n |-> 20 + i], u |-> u] : u \in Us(s, a, n)}
                  \cup UNION {{[op |-> "fill", a |-> a, n |-> n, m |-> m, vs |-> [i \in 1..n |-> 30 + i], u |-> u] : u \in Us(s, a, n)} : m \in {0, n, n \div 2, Max(0, n - 1)}}
                  : n \in {0} \cup Cnt} : a \in Tg(s)}
Alias(s) == UNION {UNION {
     {[op |-> o, a |-> a, i |-> i, u |-> u] : o \in {"pusha", "ebacka"}, u \in Us(s, a, 1)}
     \cup {[op |-> o, a |-> a, p |-> p, i |-> i, u |-> u] : o \in {"insa", "empla", "empia"}, p \in Pos(s, a), u \in Us(s, a, 1)}
     \cup UNION {{[op |-> "insna", a |-> a, p |-> p, n |-> n, i |-> i, u |-> u] : p \in Pos(s, a), u \in Us(s, a, n)} : n \in Cnt}
     \cup {[op |-> o, a |-> a, n |-> n, i |-> i] : o \in {"rsza", "assna"}, n \in {0, 2, 6, 9}}
     : i \in Idx(s, a)} : a \in Tg(s)}
\* writing through every kind of access
Write(s) == UNION {{[op |-> "set", a |-> a, p |-> p, x |-> x, h |-> h] : p \in Idx(s, a), x \in X1, h \in 0..8}
             \cup {[op |-> "sort", a |-> a, h |-> h] : h \in 0..1} \cup {[op |-> "rev", a |-> a, h |-> h] : h \in 0..1}
             \cup {[op |-> "rot", a |-> a, p |-> p] : p \in Pos(s, a)} : a \in Tg(s)}
Raw(s) == UNION {{[op |-> "rszu", a |-> a, n |-> n, vs |-> [i \in 1..n |-> 40 + i]] : n \in {0, 6} \cup Cnt} : a \in Tg(s)}
Cmp(s) == {[op |-> "cmp", a |-> a, b |-> b] : a \in Alive(s), b \in Alive(s)}
Grow(s) == {[op |-> "grow", n |-> n, r |-> r] : n \in (IF Big THEN {1, 5, 40, 200, 5000, 300000, 2000000} ELSE {3, 40}), r \in {0, 1, 2, 3, 5, 11, 20, 63, 64, 65}}
HugeOps(s) == {[op |-> o, a |-> a, n |-> n, hg |-> 1, sh |-> h] : o \in {"resv", "rsz"}, a \in Tg(s), n \in {-1, -2, 1, 2, 17}, h \in {1, 2, 3}}
       \cup {[op |-> "insn", a |-> a, p |-> 0, n |-> n, x |-> 3, u |-> 0, hg |-> 1, sh |-> h] : a \in Tg(s), n \in {-1, 2, 17}, h \in {1, 2, 3}}
       \cup {[op |-> "wbuf", a |-> a, n |-> n, vs |-> <<>>, u |-> 0, hg |-> 1, sh |-> h] : a \in Tg(s), n \in {-1, 2, 17}, h \in {1, 2, 3}}
       \cup {[op |-> "assignn", a |-> a, n |-> n, x |-> 3, hg |-> 1, sh |-> h] : a \in Tg(s), n \in {-1, 2, 17}, h \in {1, 2, 3}}
Flt(S) == {o @@ [fa |-> 1] : o \in S}

Mods(s) == Push(s) \cup Ins(s) \cup InsN(s) \cup InsR(s) \cup Erase(s) \cup EraseR(s) \cup EraseV(s) \cup Pop(s) \cup Resize(s) \cup CapOps(s) \cup AssignN(s) \cup AssignR(s)
Some(S) == IF S = {} \/ Big THEN S ELSE RandomSubset(Min(3, Cardinality(S)), S)
\* one group of operations first, so that every kind is equally likely
Gp(s, n) == CASE n = "Alias" -> Alias(s)
    [] n = "Write" -> Write(s)
    [] n = "?Write" -> Some(Write(s))
    [] n = "Raw" -> Raw(s)
    [] n = "!Raw" -> Flt(Raw(s))
    [] n = "?Alias" -> Some(Alias(s))
    [] n = "!Alias" -> Flt(Alias(s))
    [] n = "AssignN" -> AssignN(s)
    [] n = "?AssignN" -> Some(AssignN(s))
    [] n = "!AssignN" -> Flt(AssignN(s))
    [] n = "AssignR" -> AssignR(s)
    [] n = "?AssignR" -> Some(AssignR(s))
    [] n = "!AssignR" -> Flt(AssignR(s))
    [] n = "Assigns" -> Assigns(s)
    [] n = "?Assigns" -> Some(Assigns(s))
    [] n = "!Assigns" -> Flt(Assigns(s))
    [] n = "Bulk" -> Bulk(s)
    [] n = "?Bulk" -> Some(Bulk(s))
    [] n = "!Bulk" -> Flt(Bulk(s))
    [] n = "CapOps" -> CapOps(s)
    [] n = "?CapOps" -> Some(CapOps(s))
    [] n = "!CapOps" -> Flt(CapOps(s))
    [] n = "Cmp" -> Cmp(s)
    [] n = "?Cmp" -> Some(Cmp(s))
    [] n = "!Cmp" -> Flt(Cmp(s))
    [] n = "Copies" -> Copies(s)
    [] n = "?Copies" -> Some(Copies(s))
    [] n = "!Copies" -> Flt(Copies(s))
    [] n = "Ctors" -> Ctors(s)
    [] n = "?Ctors" -> Some(Ctors(s))
    [] n = "!Ctors" -> Flt(Ctors(s))
    [] n = "Destroys" -> Destroys(s)
    [] n = "?Destroys" -> Some(Destroys(s))
    [] n = "!Destroys" -> Flt(Destroys(s))
    [] n = "Erase" -> Erase(s)
    [] n = "?Erase" -> Some(Erase(s))
    [] n = "!Erase" -> Flt(Erase(s))
    [] n = "EraseR" -> EraseR(s)
    [] n = "?EraseR" -> Some(EraseR(s))
    [] n = "!EraseR" -> Flt(EraseR(s))
    [] n = "EraseV" -> EraseV(s)
    [] n = "?EraseV" -> Some(EraseV(s))
    [] n = "!EraseV" -> Flt(EraseV(s))
    [] n = "Grow" -> Grow(s)
    [] n = "?Grow" -> Some(Grow(s))
    [] n = "!Grow" -> Flt(Grow(s))
    [] n = "HugeOps" -> HugeOps(s)
    [] n = "?HugeOps" -> Some(HugeOps(s))
    [] n = "!HugeOps" -> Flt(HugeOps(s))
    [] n = "Ins" -> Ins(s)
    [] n = "?Ins" -> Some(Ins(s))
    [] n = "!Ins" -> Flt(Ins(s))
    [] n = "InsN" -> InsN(s)
    [] n = "?InsN" -> Some(InsN(s))
    [] n = "!InsN" -> Flt(InsN(s))
    [] n = "InsR" -> InsR(s)
    [] n = "?InsR" -> Some(InsR(s))
    [] n = "!InsR" -> Flt(InsR(s))
    [] n = "Mods" -> Mods(s)
    [] n = "?Mods" -> Some(Mods(s))
    [] n = "!Mods" -> Flt(Mods(s))
    [] n = "Pop" -> Pop(s)
    [] n = "?Pop" -> Some(Pop(s))
    [] n = "!Pop" -> Flt(Pop(s))
    [] n = "Push" -> Push(s)
    [] n = "?Push" -> Some(Push(s))
    [] n = "!Push" -> Flt(Push(s))
    [] n = "Resize" -> Resize(s)
    [] n = "?Resize" -> Some(Resize(s))
    [] n = "!Resize" -> Flt(Resize(s))
    [] n = "Swaps" -> Swaps(s)
    [] n = "?Swaps" -> Some(Swaps(s))
    [] n = "!Swaps" -> Flt(Swaps(s))
Groups ==
  CASE Profile = "V01" -> <<"Push", "Ins", "InsN", "InsR", "Erase", "EraseR", "EraseV", "Pop", "Resize", "CapOps", "AssignN", "AssignR", "Write">> \o (IF ~Big THEN <<"Raw">> ELSE <<>>) \o (IF Big THEN <<"Ctors", "Destroys", "Copies", "Assigns">> ELSE <<>>)
    [] Profile = "V02" -> (IF Big THEN <<"Push", "Ins", "InsN", "InsR", "Erase", "EraseR", "EraseV", "Pop", "Resize", "CapOps", "AssignN", "AssignR", "Ctors", "Destroys", "Copies", "Assigns", "Swaps", "Alias", "Write">>
                           ELSE <<"?Push", "?Ins", "?InsN", "?InsR", "?Erase", "?EraseR", "?EraseV", "Pop", "?Resize", "?CapOps", "?AssignN", "?AssignR", "?Copies", "?Assigns", "?Alias", "?Write">>)
    [] Profile = "V03" -> <<"Push", "Ins", "InsN", "Erase", "EraseR", "EraseV", "Pop", "Resize", "CapOps", "CapOps", "CapOps", "Bulk", "Raw", "Write", "Grow",
                              "AssignN", "AssignR", "InsR", "Assigns">> \o (IF Big THEN <<"Ctors", "Copies">> ELSE <<>>)
    [] Profile = "V04" -> (IF Big THEN <<"Copies", "Assigns", "Swaps", "Destroys", "Ctors", "Push", "Ins", "Erase", "EraseV", "Resize", "CapOps", "AssignR", "Bulk", "Cmp">>
                           ELSE <<"Copies", "Assigns", "Swaps", "?Destroys", "?Push", "?Erase", "CapOps">>)
    [] Profile = "V05" -> <<"Alias">> \o (IF Big THEN <<"Alias", "Alias", "CapOps", "Push", "Erase", "AssignR", "Ctors">> ELSE <<"CapOps">>)
    [] Profile = "V06" -> <<"AssignR", "InsR", "Ctors">> \o (IF Big THEN <<"Destroys", "CapOps", "Pop", "EraseR">> ELSE <<>>)
    [] Profile = "V07" -> IF Big THEN <<"Cmp", "Cmp", "Cmp", "Write", "Push", "Pop", "AssignR", "AssignN", "CapOps", "Assigns", "Erase", "Ins", "Bulk">> ELSE <<"Cmp">>
    [] Profile = "V08" -> <<"Bulk", "Raw", "Push", "CapOps">> \o (IF Big THEN <<"Bulk", "Ins", "InsN", "InsR", "Pop", "Erase", "Resize", "AssignR", "Copies", "Destroys">> ELSE <<"?Ins", "?InsN", "?InsR", "Pop">>)
    [] Profile = "V09" -> IF Big THEN <<"!Mods", "!Copies", "!Assigns", "!Ctors", "!Bulk", "!Raw", "!Alias", "HugeOps", "Push", "Ins", "CapOps", "Erase", "AssignR", "Destroys", "Assigns">>
                          ELSE <<"!Push", "!Ins", "!InsN", "!InsR", "!Resize", "!CapOps", "!AssignN", "!AssignR", "!Bulk", "!Copies", "!Assigns", "!Alias", "?HugeOps", "?Push", "?CapOps">>

Fits(s, o) == o.op \in ReadOps \/ Huge(o) \/ Need(s, o) <= MaxLen
Small(S) == RandomSubset(1, S)
NGr == Len(Groups)
Skip == [op |-> "skip"]
\* random choices are bound by quantifiers: TLC may evaluate a LET twice
Cands(s) == IF Big THEN UNION {LET g == Gp(s, Groups[i]) IN
                                 IF g = {} THEN {Skip} ELSE {IF Fits(s, o) THEN o ELSE Skip : o \in Small(g)}
                               : i \in Small(1..NGr)}
            ELSE {o \in UNION {Gp(s, Groups[i]) : i \in 1..NGr} : Fits(s, o)}

Begin == [op |-> "begin", ns |-> NS, isz |-> 1, big |-> 0]
Far == {<<2147483647>>, <<-2147483647>>, <<1, -2147483647>>, <<1, 2147483647>>, <<1, 2>>}
Starts == CASE Big -> {<<>>}
   [] Profile = "V07" -> {<<v, w, r>> : v \in {<<>>, <<1>>, <<-1>>, <<1, 2>>, <<1, 1>>, <<1, 2, -3>>, <<2>>, <<0, 0>>}, w \in {<<>>, <<1>>, <<-1>>, <<1, 2>>, <<1, 1>>, <<1, 2, -3>>, <<2>>, <<0, 0>>}, r \in {0, 3}}
         \cup {<<v, w, r>> : v \in Far, w \in Far, r \in {0, 3}}
   [] Profile = "V04" -> {<<v, w, r>> : v \in {<<>>, <<3, 1>>, <<1, 2, 3>>}, w \in {<<>>, <<2, 1>>}, r \in {0, 2}}
   [] Profile = "V06" -> {<<v, <<2, 1>>, r>> : v \in {<<>>, <<1>>, <<3, 1, 2>>}, r \in {0, 1, 3}}
   [] Profile \in {"V03"} -> {<<v, <<2, 1, 4>>, r>> : v \in {<<>>, <<1>>, <<3, 1, 2>>}, r \in {0, 2}}
   [] Profile = "V09" -> {<<v, <<2, 1, 4>>, r>> : v \in {<<>>, <<1, 2>>}, r \in {0, 1}}
   [] Profile = "V02" -> {<<v, <<2, 1>>, r>> : v \in {<<>>, <<1, 2, 1>>}, r \in {0, 2}}
   [] OTHER -> {<<v, <<2, 1>>, r>> : v \in {<<>>, <<1>>, <<1, 2>>, <<3, 1, 2, 1>>}, r \in {0, 1, 3}}
StartOps(c) == IF c = <<>> THEN <<[op |-> "ctor0", a |-> 1]>>
  ELSE <<[op |-> "ctorr", a |-> 1, k |-> "ptr", vs |-> c[1]], [op |-> "resv", a |-> 1, n |-> Len(c[1]) + c[3]],
         [op |-> "ctorr", a |-> 2, k |-> "ptr", vs |-> c[2]]>>
RECURSIVE Run(_, _)
Run(s, os) == IF os = <<>> THEN s ELSE Run(Post(s, Ref(s, Head(os))), Tail(os))
Init == \E c \in Starts : /\ st = Run(InitSt(Begin), StartOps(c))
                          /\ hist = <<Begin>> \o StartOps(c)

D0 == IF Big THEN 2 ELSE 4
Emit(h) == IF Mode = "bfs" THEN PrintT("B " \o ToJson(h))
           ELSE IF Len(h) = Depth + D0 THEN PrintT("B " \o ToJson(h)) ELSE TRUE
Step(o) ==
  LET e == IF o.op = "grow" THEN [op |-> "grow", sl |-> SameSl(st), exc |-> 0, af |-> 0, acc |-> 1, lt |-> 0, leak |-> 0, ret |-> -1, caps |-> <<o.r>>, early |-> 0, ok |-> 1] ELSE Ref(st, o) IN
  /\ Assert(Broken(st, e) = {}, <<"reference violates", Broken(st, e), e, st>>)
  /\ st' = Post(st, e)
  /\ hist' = Append(hist, o)
  /\ Emit(hist')
Next == /\ Len(hist) < Depth + D0
        /\ \E o \in Cands(st) : Step(o)
Spec == Init /\ [][Next]_vars
Inv == StateOK(st)
=============================================================================
