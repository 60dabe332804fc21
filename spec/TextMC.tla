------------------------------- MODULE TextMC -------------------------------
(* Bounded exploration of the text model and generation of behaviours.       *)
EXTENDS Text, Json, Randomization

CONSTANTS Profile, Mode, Depth

VARIABLES st, hist
vars == <<st, hist>>
View == st
Big == Mode = "sim"
NS == 3
Arena == Profile = "S08"
MaxLen == IF Profile = "S05" THEN 90 ELSE IF Big THEN 420 ELSE 330

Long == Rep(14, "abcdefghijklmnopqrstuvwxyz")
Pat(n) == Take(Long, n)
Caps == Rep(14, "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Up(n) == Take(Caps, n)

R(s, S) == IF Big /\ Cardinality(S) > 2 THEN RandomSubset(2, S) ELSE S
Alive(s) == {i \in 1..NS : s.sl[i].l = 1}
Gone(s) == {i \in 1..NS : s.sl[i].l = 0}
Multi == Profile \in {"S02", "S08", "S10"}
Tg(s) == IF Big THEN R(s, Alive(s)) ELSE IF Multi THEN Alive(s) ELSE {1} \cap Alive(s)
Oth(s) == IF Big THEN R(s, Alive(s)) ELSE IF Multi THEN Alive(s) ELSE {2} \cap Alive(s)
L(s, a) == N(s, a)
Wild == Profile = "S07"
Pos0(s, a) == LET n == L(s, a) IN {p \in {0, 1, n \div 2, n - 1, n} \cup (IF Big THEN {2, 23, 24, 254} ELSE {}) : p >= 0 /\ p <= n}
Pos(s, a) == R(s, Pos0(s, a))
\* positions of checked operations: also beyond the end
PosX(s, a) == Pos(s, a) \cup (IF Wild \/ Big THEN {L(s, a) + 1} ELSE {}) \cup (IF Wild THEN {L(s, a) + 300} ELSE {})
Idx(s, a) == {p \in Pos(s, a) : p < L(s, a)}
Cnt0 == IF Big THEN {-1, 0, 1, 2, 7, 22, 120, 300} ELSE IF Wild THEN {-1, 0, 1, 400} ELSE {-1, 0, 1, 5}
Xs == IF Big THEN {"Q", "0", "~", "_"} ELSE {"Q", "0"}
X1 == IF Big THEN Xs ELSE {"Q"}
Ts0 == IF Profile = "S09" THEN {"", "a", "a_b", "__a|b_|", "a0b", "~^", "ab_cd_ef", "|", Up(24), Up(24) \o "_" \o Up(3)} 
      ELSE IF Big THEN {"", "X", "XY0Z", "~^0", "_", Up(9), Up(22), Up(23), Up(24), Up(46), Up(130), Up(232), Up(260)}
      ELSE IF Profile \in {"S01", "S03", "S11"} THEN {"", "X", "XY0Z", Up(24), Up(232)} ELSE {"", "XY0Z", Up(24)}
Il(k, t) == k \notin {"il", "+il"} \/ Len(t) <= 4
Rs(s) == IF Arena THEN {1, 2, 3} \ s.gone ELSE {0}
Pick(S) == IF Big \/ S = {} THEN S ELSE RandomSubset(1, S)
Nums0 == IF Big THEN {0, 1, 7, 22, 23, 24, 46, 100, 253, 254, 255, 300} ELSE {0, 1, 23, 24, 254, 255}

CtxK == {"cs", "pn", "view", "std", "il", "lst", "ptr", "vec", "inp"}
AsxK == {"cs", "=cs", "view", "std", "il", "=il", "pn", "lst", "ptr", "inp"}
ApxK == {"cs", "pn", "+view", "+cs", "il", "+il", "lst", "ptr", "inp"}
InsK == {"cs", "pn", "lst", "inp", "il", "ptr"}
RpxK == {"cs", "pn", "lst", "inp", "ics", "ipn", "iptr", "vec"}
Checked == {"cs", "pn"}

Cnt(s) == R(s, Cnt0)
Ts(s) == R(s, Ts0)
Nums(s) == R(s, Nums0)

Ctors(s) == LET g == Gone(s) IN IF g = {} THEN {} ELSE LET a == CHOOSE x \in g : TRUE IN
     {[op |-> "c0", a |-> a, r |-> r] : r \in Rs(s)}
     \cup {[op |-> "cfill", a |-> a, n |-> n, x |-> x, r |-> r] : n \in Nums(s), x \in X1, r \in Rs(s)}
     \cup {[op |-> "ctx", a |-> a, k |-> k, t |-> t, r |-> r] : k \in R(s, {k \in CtxK : Il(k, "XXXXX")}), t \in Ts(s), r \in Rs(s)}
     \cup {[op |-> "ctx", a |-> a, k |-> "il", t |-> t, r |-> r] : t \in {t \in Ts0 : Len(t) <= 4}, r \in Rs(s)}
     \cup UNION {{[op |-> "csub", a |-> a, b |-> b, p |-> p, n |-> n, r |-> r] : p \in PosX(s, b), n \in Cnt(s), r \in Rs(s)} : b \in Oth(s)}
     \cup (IF Wild \/ Big THEN {[op |-> "cnul", a |-> a, r |-> r] : r \in Rs(s)} ELSE {})
Copies(s) == LET g == Gone(s) IN IF g = {} THEN {} ELSE LET a == CHOOSE x \in g : TRUE IN
     {[op |-> o, a |-> a, b |-> b] : o \in {"copyctor", "movector", "clone"}, b \in Alive(s)}
Shares(s) == LET g == Gone(s) IN IF g = {} THEN {} ELSE {[op |-> "copyctor", a |-> CHOOSE x \in g : TRUE, b |-> b] : b \in Alive(s)}
Subs(s) == LET g == Gone(s) IN IF g = {} THEN {} ELSE LET a == CHOOSE x \in g : TRUE IN
     UNION {{[op |-> o, a |-> a, b |-> b, p |-> p, n |-> n] : o \in {"sub", "subm"}, p \in PosX(s, b), n \in Cnt(s)} : b \in Tg(s)}
Plus(s) == LET g == Gone(s) IN IF g = {} THEN {} ELSE LET a == CHOOSE x \in g : TRUE IN
     {[op |-> "plus", a |-> a, f |-> f, b |-> b, c |-> c] : f \in {"ss", "ms", "sm"}, b \in Alive(s), c \in Alive(s)}
     \cup {[op |-> "plus", a |-> a, f |-> "mm", b |-> bc[1], c |-> bc[2]] : bc \in {x \in Alive(s) \X Alive(s) : x[1] # x[2]}}
     \cup {[op |-> "plus", a |-> a, f |-> f, b |-> b, c |-> 0, t |-> t] : f \in {"st", "mt"}, b \in Alive(s), t \in Ts(s)}
     \cup {[op |-> "plus", a |-> a, f |-> f, b |-> 0, c |-> c, t |-> t] : f \in {"ts", "tm"}, c \in Alive(s), t \in Ts(s)}
     \cup {[op |-> "plus", a |-> a, f |-> f, b |-> b, c |-> 0, t |-> x] : f \in {"sc", "mc"}, b \in Alive(s), x \in Xs}
     \cup {[op |-> "plus", a |-> a, f |-> f, b |-> 0, c |-> c, t |-> x] : f \in {"cs", "cm"}, c \in Alive(s), x \in Xs}
CopyAs(s) == {[op |-> o, a |-> a, b |-> b] : o \in {"copyas", "asstr"}, a \in Tg(s), b \in Alive(s)}
MoveAs(s) == {[op |-> o, a |-> a, b |-> b] : o \in {"moveas", "asmv"}, a \in Tg(s), b \in Alive(s)}
Swaps(s) == {[op |-> "swap", a |-> a, b |-> b, s |-> x] : a \in Alive(s), b \in Alive(s), x \in {0, 1}}
Destroys(s) == {[op |-> "destroy", a |-> a] : a \in Alive(s)}
AsX(s) == {[op |-> "asx", a |-> a, k |-> k, t |-> t] : a \in Tg(s), k \in R(s, AsxK \ {"il", "=il"}), t \in Ts(s)}
          \cup {[op |-> "asx", a |-> a, k |-> k, t |-> t] : a \in Tg(s), k \in {"il", "=il"}, t \in {t \in Ts0 : Len(t) <= 4}}
          \cup {[op |-> "asx", a |-> a, k |-> "ch", t |-> x] : a \in Tg(s), x \in Xs}
AsN(s) == {[op |-> "asn", a |-> a, n |-> n, x |-> x] : a \in Tg(s), n \in Nums(s), x \in X1}
AsSub(s) == UNION {{[op |-> "assub", a |-> a, b |-> b, p |-> p, n |-> n] : a \in Tg(s), p \in PosX(s, b), n \in Cnt(s)} : b \in Oth(s)}
ApX(s) == {[op |-> "apx", a |-> a, k |-> k, t |-> t] : a \in Tg(s), k \in R(s, ApxK \ {"il", "+il"}), t \in Ts(s)}
          \cup {[op |-> "apx", a |-> a, k |-> k, t |-> t] : a \in Tg(s), k \in {"il", "+il"}, t \in {t \in Ts0 : Len(t) <= 4}}
Push(s) == {[op |-> "push", a |-> a, x |-> x, k |-> k] : a \in Tg(s), x \in Xs, k \in {"f", "+"}}
ApN(s) == {[op |-> "apn", a |-> a, n |-> n, x |-> x] : a \in Tg(s), n \in Nums(s), x \in X1}
ApStr(s) == {[op |-> "apstr", a |-> a, b |-> b, k |-> k] : a \in Tg(s), b \in Oth(s), k \in {"f", "+"}}
            \cup UNION {{[op |-> "apsub", a |-> a, b |-> b, p |-> p, n |-> n] : a \in Tg(s), p \in PosX(s, b), n \in Cnt(s)} : b \in Oth(s)}
InsX(s) == UNION {{[op |-> "insx", a |-> a, k |-> k, p |-> p, t |-> t] : k \in {"lst", "inp", "ptr"}, p \in Pos(s, a), t \in Ts(s)} : a \in Tg(s)}
           \cup UNION {{[op |-> "insx", a |-> a, k |-> "il", p |-> p, t |-> t] : p \in Pos(s, a), t \in {t \in Ts0 : Len(t) <= 4}} : a \in Tg(s)}
InsI(s) == UNION {{[op |-> "insx", a |-> a, k |-> k, p |-> p, t |-> t] : k \in Checked, p \in PosX(s, a), t \in Ts(s)} : a \in Tg(s)}
InsN(s) == UNION {{[op |-> "insn", a |-> a, p |-> p, n |-> n, x |-> x] : p \in PosX(s, a), n \in Nums(s), x \in X1}
                  \cup {[op |-> "insni", a |-> a, p |-> p, n |-> n, x |-> x] : p \in Pos(s, a), n \in Nums(s), x \in X1}
                  \cup {[op |-> "insc", a |-> a, p |-> p, x |-> x] : p \in Pos(s, a), x \in Xs} : a \in Tg(s)}
InsStr(s) == UNION {UNION {{[op |-> "insstr", a |-> a, p |-> p, b |-> b] : p \in PosX(s, a)}
                    \cup {[op |-> "inssub", a |-> a, p |-> p, b |-> b, p2 |-> q, n2 |-> n] : p \in PosX(s, a), q \in PosX(s, b), n \in Cnt(s)} : b \in Oth(s)} : a \in Tg(s)}
Erase(s) == UNION {{[op |-> "er", a |-> a, p |-> p, n |-> n] : p \in PosX(s, a), n \in Cnt(s)}
                   \cup {[op |-> "eri", a |-> a, p |-> p] : p \in Idx(s, a)}
                   \cup {[op |-> "err", a |-> a, p |-> pq[1], q |-> pq[2]] : pq \in {x \in Pos(s, a) \X Pos(s, a) : x[1] <= x[2]}} : a \in Tg(s)}
        \cup {[op |-> "pop", a |-> a] : a \in {b \in Tg(s) : L(s, b) > 0}} \cup {[op |-> "clear", a |-> a] : a \in Tg(s)}
RpX(s) == UNION {{[op |-> "rpx", a |-> a, k |-> k, p |-> p, n |-> n, t |-> t] : k \in R(s, RpxK \ Checked), p \in Pos(s, a), n \in Cnt(s), t \in Ts(s)} : a \in Tg(s)}
RpI(s) == UNION {{[op |-> "rpx", a |-> a, k |-> k, p |-> p, n |-> n, t |-> t] : k \in Checked, p \in PosX(s, a), n \in Cnt(s), t \in Ts(s)} : a \in Tg(s)}
RpN(s) == UNION {{[op |-> "rpn", a |-> a, p |-> p, n |-> n, m |-> m, x |-> x, k |-> "idx"] : p \in PosX(s, a), n \in Cnt(s), m \in Nums(s), x \in X1}
                 \cup {[op |-> "rpn", a |-> a, p |-> p, n |-> n, m |-> m, x |-> x, k |-> "it"] : p \in Pos(s, a), n \in Cnt(s), m \in Nums(s), x \in X1} : a \in Tg(s)}
RpStr(s) == UNION {UNION {{[op |-> "rpstr", a |-> a, p |-> p, n |-> n, b |-> b, k |-> "idx"] : p \in PosX(s, a), n \in Cnt(s)}
                   \cup {[op |-> "rpstr", a |-> a, p |-> p, n |-> n, b |-> b, k |-> "it"] : p \in Pos(s, a), n \in Cnt(s)}
                   \cup {[op |-> "rpsub", a |-> a, p |-> p, n |-> n, b |-> b, p2 |-> q, n2 |-> m] : p \in PosX(s, a), n \in Cnt(s), q \in PosX(s, b), m \in Cnt(s)} : b \in Oth(s)} : a \in Tg(s)}
Resize(s) == {[op |-> "rsz", a |-> a, n |-> n, x |-> x] : a \in Tg(s), n \in Nums(s) \cup {L(s, 1) + 1}, x \in X1 \cup {"0"}}
CapOps(s) == {[op |-> "resv", a |-> a, n |-> n] : a \in Tg(s), n \in Nums(s) \cup {310}} \cup {[op |-> o, a |-> a] : o \in {"shrink", "clear"}, a \in Tg(s)}
Mut(s) == UNION {{[op |-> "mut", a |-> a, k |-> k, p |-> p, x |-> x] : k \in {"idx", "at", "beg", "end", "rbeg", "rend"} \cup (IF Profile = "S02" THEN {"data"} ELSE {}), p \in Idx(s, a), x \in X1} : a \in Tg(s)}
      \cup UNION {{[op |-> "mut", a |-> a, k |-> "front", p |-> 0, x |-> "Q"], [op |-> "mut", a |-> a, k |-> "back", p |-> L(s, a) - 1, x |-> "Q"]} : a \in {b \in Tg(s) : L(s, b) > 0}}
CMut(s) == LET g == Gone(s) IN IF g = {} THEN {} ELSE LET a == CHOOSE x \in g : TRUE IN
           UNION {{[op |-> "cmut", a |-> a, b |-> b, p |-> p, x |-> "Q"] : p \in Idx(s, b)} : b \in Alive(s)}
Pieces(s, a) == {x \in Pos(s, a) \X {0, 1, 5, 23, L(s, a)} : x[1] + x[2] <= L(s, a)}
SelfAp(s) == UNION {{[op |-> o, a |-> a, k |-> k, p |-> x[1], n |-> x[2]] : o \in {"sap", "sas"}, k \in {"pn", "view", "it", "sub"}, x \in Pieces(s, a)}
                    \cup {[op |-> o, a |-> a, k |-> "cs", p |-> p, n |-> 0] : o \in {"sap", "sas"}, p \in Pos(s, a)}
                    \cup {[op |-> "sap", a |-> a, k |-> k, p |-> 0, n |-> 0] : k \in {"str", "+="}}
                    \cup {[op |-> "sap", a |-> a, k |-> "push", p |-> p, n |-> 1] : p \in Idx(s, a)} : a \in Tg(s)}
SelfIns(s) == UNION {{[op |-> "sins", a |-> a, q |-> q, k |-> k, p |-> x[1], n |-> x[2]] : q \in Pos(s, a), k \in {"pn", "it", "cit", "sub"}, x \in Pieces(s, a)}
                    \cup {[op |-> "sins", a |-> a, q |-> q, k |-> "cs", p |-> p, n |-> 0] : q \in Pos(s, a), p \in Pos(s, a)}
                    \cup {[op |-> "sins", a |-> a, q |-> q, k |-> "str", p |-> 0, n |-> 0] : q \in PosX(s, a)} : a \in Tg(s)}
SelfRp(s) == UNION {UNION {{[op |-> "srp", a |-> a, q |-> q, m |-> m, k |-> k, p |-> x[1], n |-> x[2]] : q \in Pos(s, a), k \in {"pn", "it", "cit", "sub"}, x \in Pieces(s, a)}
                    \cup {[op |-> "srp", a |-> a, q |-> q, m |-> m, k |-> k, p |-> p, n |-> 0] : q \in Pos(s, a), p \in Pos(s, a), k \in {"cs", "ics"}}
                    \cup {[op |-> "srp", a |-> a, q |-> q, m |-> m, k |-> "str", p |-> 0, n |-> 0] : q \in PosX(s, a)} : m \in {0, 1, 7, -1}} : a \in Tg(s)}
Reads(s) == UNION {{[op |-> "at", a |-> a, p |-> p, k |-> k] : p \in PosX(s, a), k \in {"c", "m"}} \cup {[op |-> "cpy", a |-> a, p |-> p, n |-> n] : p \in PosX(s, a), n \in Cnt(s)} : a \in Tg(s)}
FK == {"str", "cs", "pn", "ch", "view"}
Needles == IF Big THEN {"", "a", "b", "c", "ab", "bc", "za", "z", "0", "~", "xyz", "yzab", "Q", "_", Pat(25), "cba", "aa", "aab", "abab"}
           ELSE {"", "a", "b", "ab", "ba", "aa", "bb", "aab", "bab", "abb", "0", "a0", "0a", "~"}
Finds1(s) == UNION {UNION {{[op |-> "find", a |-> a, f |-> f, k |-> k, t |-> t] : k \in Pick({k \in FK : (k = "ch" => Len(t) = 1) /\ (k = "view" => f \in {"has", "sw", "ew"}) /\ (k = "pn" => f \notin {"has", "sw", "ew"})})}
              : f \in {"find", "rfind", "ffo", "ffno", "flo", "flno", "has", "sw", "ew"}, t \in R(s, Needles)} : a \in {b \in Tg(s) : L(s, b) <= 90}}
Cmp(s) == {[op |-> o, a |-> a, b |-> b] : o \in {"cmp", "hash"}, a \in Alive(s), b \in Alive(s)}
CmpR(s) == UNION {UNION {{[op |-> "cmpr", a |-> a, b |-> b, k |-> k, p |-> p, n |-> n, p2 |-> p2, n2 |-> n2] : p \in R(s, {0, 1, L(s, a), L(s, a) + 1}), n \in R(s, {-1, 0, 1, 2}), p2 \in {0, 1}, n2 \in R(s, {0, 1, 5}), k \in R(s, {"str", "sub", "cs", "pn"})} : b \in Oth(s)} : a \in Tg(s)}
Outs(s) == UNION {{[op |-> "os", a |-> a, w |-> w, ad |-> ad, x |-> x] : w \in {0, 1, 3, 10, 30}, ad \in {"l", "r", "i", "n"}, x \in {".", "_"}}
                  \cup {[op |-> "fmt", a |-> a, w |-> w, ad |-> ad, x |-> "."] : w \in (IF In(El(s, a), "~") \/ In(El(s, a), "^") THEN {0} ELSE {-1, 0, 3, 10, 30}), ad \in {"l", "r", "c"}}
                  \cup {[op |-> "conv", a |-> a, k |-> k] : k \in {"mem", "free", "freem", "tos", "view", "cs", "ctor"}} : a \in Tg(s)}
Streams(s) == {[op |-> "sopen", t |-> t, ws |-> ws, ex |-> ex] : t \in {"", "_", "ab", "ab_cd", "__ab|cd", "a0b_~^|_x_", Pat(30) \o "_" \o Pat(24) \o "|" \o Pat(3), "|a||b", Pat(300) \o "|" \o Pat(63) \o "|" \o Pat(64)}, ws \in {0, 1}, ex \in {0, 1}}
Words(s) == {[op |-> "word", a |-> a, w |-> w] : a \in Tg(s), w \in {0, 1, 2, 24, 40}} \cup {[op |-> "line", a |-> a, d |-> d] : a \in Tg(s), d \in {"|", "|", "_", "b"}}
Kills(s) == {[op |-> "kill", r |-> r] : r \in {1, 2, 3} \ (s.gone \cup {s.sl[i].r : i \in Alive(s)})}
HugeOps(s) == {[op |-> o, a |-> a, n |-> 0, x |-> "Q", p |-> 0, m |-> 0, hg |-> h] : o \in {"rsz", "resv", "apn", "insn", "insni", "asn"}, a \in Tg(s), h \in {1, 2, 9, 10, 11, 24, 300}}
Flt(S) == {o @@ [fa |-> 1] : o \in S}

Mods == <<"AsX", "AsN", "AsSub", "ApX", "ApN", "ApStr", "Push", "InsX", "InsI", "InsN", "InsStr", "Erase", "RpX", "RpI", "RpN", "RpStr", "Resize", "CapOps">>
Some(S) == IF S = {} \/ Big THEN S ELSE RandomSubset(Min(4, Cardinality(S)), S)
More(S) == IF S = {} \/ Big THEN S ELSE RandomSubset(Min(IF Profile = "S08" THEN 8 ELSE IF Profile = "S01" THEN 20 ELSE 40, Cardinality(S)), S)
G0(s, n) ==
  CASE n = "Ctors" -> Ctors(s) [] n = "Copies" -> Copies(s) [] n = "Shares" -> Shares(s) [] n = "Subs" -> Subs(s) [] n = "Plus" -> Plus(s)
    [] n = "CopyAs" -> CopyAs(s) [] n = "MoveAs" -> MoveAs(s) [] n = "Swaps" -> Swaps(s) [] n = "Destroys" -> Destroys(s)
    [] n = "AsX" -> AsX(s) [] n = "AsN" -> AsN(s) [] n = "AsSub" -> AsSub(s) [] n = "ApX" -> ApX(s) [] n = "ApN" -> ApN(s)
    [] n = "ApStr" -> ApStr(s) [] n = "Push" -> Push(s) [] n = "InsX" -> InsX(s) [] n = "InsI" -> InsI(s) [] n = "InsN" -> InsN(s)
    [] n = "InsStr" -> InsStr(s) [] n = "Erase" -> Erase(s) [] n = "RpX" -> RpX(s) [] n = "RpI" -> RpI(s) [] n = "RpN" -> RpN(s)
    [] n = "RpStr" -> RpStr(s) [] n = "Resize" -> Resize(s) [] n = "CapOps" -> CapOps(s) [] n = "Mut" -> Mut(s) [] n = "CMut" -> CMut(s)
    [] n = "SelfAp" -> SelfAp(s) [] n = "SelfIns" -> SelfIns(s) [] n = "SelfRp" -> SelfRp(s) [] n = "Reads" -> Reads(s)
    [] n = "Finds" -> Finds1(s) [] n = "Cmp" -> Cmp(s) [] n = "CmpR" -> CmpR(s) [] n = "Outs" -> Outs(s)
    [] n = "Streams" -> Streams(s) [] n = "Words" -> Words(s) [] n = "Kills" -> Kills(s) [] n = "HugeOps" -> HugeOps(s)
\* ? a few, + some more, ! with a failing allocation
Gp(s, n) == CASE At(n, 1) = "?" -> Some(G0(s, Drop(n, 1)))
              [] At(n, 1) = "+" -> More(G0(s, Drop(n, 1)))
              [] At(n, 1) = "!" -> Flt(More(G0(s, Drop(n, 1))))
              [] OTHER -> G0(s, n)
Pre(c, gs) == [i \in DOMAIN gs |-> c \o gs[i]]
\* after the first operation only a few probes follow
Probe == <<"?Push", "?Erase", "?CapOps", "?Copies", "?Mut", "?AsX">>
Groups(d) ==
  CASE Profile = "S01" -> IF Big THEN Mods \o <<"Ctors", "Destroys", "Copies", "CopyAs", "Subs", "Plus", "Reads", "Mut">>
                          ELSE IF d > 0 THEN Probe ELSE Pre("+", Mods) \o <<"+Ctors", "+Subs", "+Plus", "+CopyAs", "?Reads">>
    [] Profile = "S02" -> IF Big THEN <<"Copies", "Copies", "Shares", "Shares", "CopyAs", "MoveAs", "Swaps", "Destroys", "Mut", "Mut", "CMut", "Subs", "Plus", "Ctors", "Finds", "Cmp">> \o Mods
                          ELSE IF d > 0 THEN <<"+Mut", "+CMut", "?Erase", "?Push", "?Resize", "?CapOps", "+Destroys", "?AsX", "?InsN", "?RpN", "?SelfAp", "?Swaps", "?CopyAs", "?Outs">>
                          ELSE <<"Copies", "CopyAs", "?MoveAs", "?Swaps", "Destroys", "?Plus", "+Mut", "?Push", "?Resize", "?Erase", "?CapOps">>
    [] Profile = "S03" -> IF Big THEN <<"CapOps", "CapOps", "CapOps", "Resize", "Resize", "ApX", "ApN", "Push", "Erase", "Shares", "Destroys", "AsX", "AsN", "InsN", "RpN", "Ctors", "CopyAs", "Subs", "Swaps">>
                          ELSE IF d > 0 THEN <<"?CapOps", "?Push", "?ApN", "?Resize", "?Erase">> ELSE <<"CapOps", "Resize", "+Erase", "ApN", "Push", "+ApX", "AsN", "+InsN", "+RpN", "?Copies", "+Subs">>
    [] Profile = "S04" -> IF Big THEN <<"SelfAp", "SelfIns", "SelfRp", "SelfAp", "SelfIns", "SelfRp", "CapOps", "Push", "Erase", "AsX", "Shares", "Destroys", "CopyAs">>
                          ELSE IF d > 0 THEN <<"?Push", "?SelfIns">> ELSE <<"SelfAp", "SelfIns", "SelfRp", "?CopyAs">>
    [] Profile = "S05" -> IF Big THEN <<"Finds", "Finds", "Finds", "Finds", "AsX", "ApX", "Erase", "RpI", "CapOps">> ELSE <<"Finds">>
    [] Profile = "S06" -> IF Big THEN <<"Cmp", "Cmp", "CmpR", "CmpR", "AsX", "ApX", "Erase", "Mut", "CopyAs", "Copies", "Destroys", "CapOps", "Push", "Ctors">> ELSE <<"Cmp", "+CmpR">>
    [] Profile = "S07" -> IF Big THEN <<"AsSub", "ApStr", "InsI", "InsN", "InsStr", "Erase", "RpI", "RpN", "RpStr", "Subs", "Reads", "CmpR", "Ctors", "HugeOps", "HugeOps", "Destroys", "Shares", "CapOps">>
                          ELSE IF d > 0 THEN <<"?Push", "?Erase">> ELSE <<"+AsSub", "+ApStr", "+InsI", "+InsN", "+InsStr", "Erase", "+RpI", "+RpN", "+RpStr", "+Subs", "Reads", "+CmpR", "+Ctors", "HugeOps">>
    [] Profile = "S08" -> IF Big THEN Mods \o <<"Ctors", "Ctors", "Copies", "CopyAs", "MoveAs", "Swaps", "Swaps", "Destroys", "Kills", "Kills", "SelfAp", "SelfIns", "SelfRp", "Subs", "Plus", "Mut", "Cmp">>
                          ELSE IF d > 0 THEN <<"?Push", "?Destroys", "Kills", "?Mut", "?Erase", "?ApX", "?SelfRp">>
                          ELSE Pre("+", Mods) \o <<"+Ctors", "Copies", "CopyAs", "MoveAs", "Swaps", "+SelfAp", "+SelfIns", "+SelfRp", "+Subs", "+Plus", "Destroys">>
    [] Profile = "S09" -> IF Big THEN <<"Outs", "Outs", "Outs", "Streams", "Words", "Words", "Words", "Words", "AsX", "ApX", "CapOps">> ELSE IF d > 0 THEN <<"Words">> ELSE <<"Outs", "Streams", "+Ctors", "+AsX">>
    [] Profile = "S10" -> IF Big THEN <<"Copies", "MoveAs", "MoveAs", "Swaps", "Swaps", "Subs", "Plus", "Destroys", "Shares", "Mut", "AsX", "Push", "Erase", "CapOps", "CopyAs", "Ctors", "ApX">>
                          ELSE IF d > 0 THEN <<"?Push", "?Destroys", "?Swaps", "?MoveAs", "?CopyAs", "?CapOps", "?Erase", "?Plus">> ELSE <<"Copies", "MoveAs", "Swaps", "+Subs", "+Plus">>
    [] Profile = "S11" -> IF Big THEN Pre("!", Mods) \o <<"!Copies", "!CopyAs", "!Subs", "!Plus", "!Ctors", "!Mut", "!SelfAp", "!SelfIns", "!SelfRp", "!Erase", "!Shares", "Shares", "Shares", "Push", "Erase", "Destroys", "CapOps">>
                          ELSE IF d > 0 THEN <<"?Push", "?Erase", "?CapOps">> ELSE Pre("!", Mods) \o <<"!Copies", "!CopyAs", "!Subs", "!Plus", "!Ctors", "!Mut", "!SelfAp", "!SelfIns", "!SelfRp">>

Fits(s, o) == o.op \in ReadOps \/ Huge(o) \/ Oor(s, o) \/ Len(Body(s, o)) <= MaxLen
Small(S) == RandomSubset(1, S)
NGr(d) == Len(Groups(d))
Skip == [op |-> "skip"]
\* random choices are bound by quantifiers: TLC may evaluate a LET twice
Cands(s, d) == IF Big THEN UNION {LET g == Gp(s, Groups(d)[i]) IN
                                 IF g = {} THEN {Skip} ELSE {IF Legal(s, o) /\ Fits(s, o) THEN o ELSE Skip : o \in Small(g)}
                               : i \in Small(1..NGr(d))}
            ELSE {o \in UNION {Gp(s, Groups(d)[i]) : i \in 1..NGr(d)} : Fits(s, o)}

Begin == [op |-> "begin", ns |-> NS, sm |-> 23, md |-> 254, sso |-> 1, ar |-> B(Arena)]
RECURSIVE AllT(_, _)
AllT(A, n) == IF n = 0 THEN {""} ELSE LET h == AllT(A, n - 1) IN h \cup {x \o y : x \in {z \in h : Len(z) = n - 1}, y \in A}
\* text of slot 1, room, how slot 2 comes about: "-" not at all, "=" a copy (room for slot 2), "#" a copy made with room,
\* "@..." a copy, and a third string with the text; otherwise a text
Base == {"", "ab0", Pat(22), Pat(23), Pat(24), Pat(254), Pat(255)}
Starts == CASE Big -> {<<"", 0, "-">>}
   [] Profile = "S05" -> {<<t, 0, "-">> : t \in AllT({"a", "b"}, 5) \cup AllT({"a", "0"}, 3) \cup {"~^~", "aabaabb", "abababba"}} \cup {<<t, 30, "-">> : t \in {"", "ab", "abaab"}}
   [] Profile = "S06" -> {<<t, 0, u>> : t \in AllT({"0", "a", "^", "~"}, 2) \cup {Pat(24), Pat(255), Pat(255) \o "~"}, u \in AllT({"0", "a", "^", "~"}, 2) \cup {Pat(24), Pat(255), Pat(256)}} \cup {<<t, 0, "=">> : t \in {"ab", Pat(23), Pat(255)}}
                              \* the same text, or nearly, with other histories: room, another category
                              \cup {<<t, r, "=">> : t \in {"", "a", Pat(23), Pat(254), Pat(255)}, r \in {30, 300}} \cup {<<Pat(255), 60, "#">>, <<Pat(23), 300, "#">>}
                              \cup {<<t, r, u>> : t \in {"", "a", "a~"}, u \in {"a", "a~"}, r \in {30, 300}} \cup {<<t, r, Pat(254)>> : t \in {Pat(254), Pat(255)}, r \in {1, 60}}
   [] Profile = "S09" -> {<<t, r, "-">> : t \in Ts0, r \in {0, 30}}
   [] Profile \in {"S03", "S11"} -> {<<Pat(255), 60, "#">>, <<Pat(23), 300, "#">>} \cup {<<t, r, "=">> : t \in Base, r \in {0, 1, 300}} \cup {<<t, r, "XY0Z">> : t \in Base, r \in {0, 1, 30}}
   [] Profile = "S02" -> {<<t, r, "=">> : t \in {"ab0", Pat(23), Pat(254), Pat(255)}, r \in {0, 300}} \cup {<<Pat(255), 0, Up(255)>>, <<Pat(255), 60, "#">>, <<Pat(23), 300, "#">>}
   [] Profile = "S10" -> {<<Pat(255), 60, "#">>, <<Pat(255), 0, "@xyz">>} \cup {<<t, r, u>> : t \in {"", "ab0", Pat(24), Pat(255)}, u \in {"=", "Z", Up(30), Up(256)}, r \in {0, 300}}
   [] Profile = "S08" -> {<<t, 0, u>> : t \in {"ab0", Pat(24), Pat(255)}, u \in {"=", Up(256)}} \cup {<<Pat(255), 60, "#">>} \cup {<<Pat(255), 0, u>> : u \in {"@xyz", "@" \o Up(256)}}
   [] Profile = "S04" -> {<<t, r, u>> : t \in {"", "ab0", Pat(23), Pat(40), Pat(255)}, u \in {"-", "="}, r \in {0, 300}} \cup {<<Pat(255), 60, "#">>}
   [] OTHER -> {<<Pat(255), 60, "#">>} \cup {<<t, r, "XY0Z">> : t \in Base, r \in {0, 30}} \cup {<<t, 0, "=">> : t \in {Pat(254), Pat(255)}}
StartOps(c) == IF Big THEN <<[op |-> "c0", a |-> 1, r |-> B(Arena)]>>
  ELSE <<[op |-> "ctx", a |-> 1, k |-> "view", t |-> c[1], r |-> B(Arena)]>>
       \o (IF c[3] = "#" THEN <<[op |-> "resv", a |-> 1, n |-> c[2] + Len(c[1])], [op |-> "copyctor", a |-> 2, b |-> 1]>>
           ELSE IF c[3] = "=" \/ (Len(c[3]) > 0 /\ At(c[3], 1) = "@") THEN <<[op |-> "copyctor", a |-> 2, b |-> 1]>> ELSE IF c[3] = "-" THEN <<>> ELSE <<[op |-> "ctx", a |-> 2, k |-> "view", t |-> c[3], r |-> IF Arena THEN 2 ELSE 0]>>)
       \o (IF c[2] > 0 /\ c[3] = "=" THEN <<[op |-> "resv", a |-> 2, n |-> c[2]]>> ELSE <<>>)
       \o (IF Len(c[3]) > 0 /\ At(c[3], 1) = "@" THEN <<[op |-> "ctx", a |-> 3, k |-> "view", t |-> Drop(c[3], 1), r |-> IF Arena THEN 2 ELSE 0]>> ELSE <<>>)
       \o (IF c[2] > 0 /\ c[3] \notin {"=", "#"} THEN <<[op |-> "resv", a |-> 1, n |-> c[2] + Len(c[1])]>> ELSE <<>>)
RECURSIVE Run(_, _)
Run(s, os) == IF os = <<>> THEN s ELSE Run(Post(s, Ref(s, Head(os))), Tail(os))
VARIABLE d0
Init == \E c \in Starts : /\ st = Run(InitSt(Begin), StartOps(c))
                          /\ hist = <<Begin>> \o StartOps(c)
                          /\ d0 = Len(StartOps(c)) + 1

Emit(h) == IF Mode = "bfs" THEN PrintT("B " \o ToJson(h))
           ELSE IF Len(h) = Depth + d0 THEN PrintT("B " \o ToJson(h)) ELSE TRUE
Step(o) ==
  LET e == Ref(st, o) IN
  /\ Assert(o.op = "skip" \/ Legal(st, o), <<"not a legal call", o>>)
  /\ Assert(Broken(st, e) = {}, <<"reference violates", Broken(st, e), e, st>>)
  /\ st' = Post(st, e)
  /\ hist' = Append(hist, o)
  /\ d0' = d0
  /\ Emit(hist')
Next == /\ Len(hist) < Depth + d0
        /\ \E o \in Cands(st, Len(hist) - d0) : Step(o)
Spec == Init /\ [][Next]_<<st, hist, d0>>
Inv == StateOK(st)
=============================================================================
