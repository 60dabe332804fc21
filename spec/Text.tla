-------------------------------- MODULE Text --------------------------------
(* memory::string, arena_string and the wide strings built from the same     *)
(* template: several strings, every public operation, and the promises       *)
(* S01..S11 as predicates over (state, observed event).                      *)
(* A text is a TLA+ string over a printable alphabet that the harness maps   *)
(* to bytes: 0 is NUL, ~ is 0xff, ^ is 0x80, _ is a space, | is a newline.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Props

Has(e, f) == f \in DOMAIN e
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
B(c) == IF c THEN 1 ELSE 0

\* ------------------------------------------------------------------- texts
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
At(s, i) == SubSeq(s, i, i)                               \* 1-based
Mid(s, p, n) == SubSeq(s, p + 1, IF n < 0 THEN Len(s) ELSE Min(Len(s), p + n))   \* n = -1: to the end
Splice(s, p, m, t) == Take(s, p) \o t \o Drop(s, p + m)   \* replaces m characters at p
Clamp(s, p, n) == IF n < 0 THEN Len(s) - p ELSE Min(n, Len(s) - p)
RECURSIVE Rep(_, _)
Rep(n, x) == IF n <= 0 THEN "" ELSE IF n = 1 THEN x ELSE LET h == Rep(n \div 2, x) IN h \o h \o (IF n % 2 = 1 THEN x ELSE "")
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, x, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = x THEN i ELSE IndexFrom(s, x, i + 1)
In(s, x) == IndexFrom(s, x, 1) > 0
UpTo(s, x) == LET i == IndexFrom(s, x, 1) IN IF i = 0 THEN s ELSE Take(s, i - 1)
CStr(s) == UpTo(s, "0")

\* byte order of the alphabet
Alpha == "0>|_.ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz^~"
Rank(x) == IndexFrom(Alpha, x, 1)
RECURSIVE Split(_, _, _, _)                  \* the first difference lies in i..n
Split(s, t, i, n) == IF i = n THEN i ELSE LET h == (i + n) \div 2 IN IF SubSeq(s, i, h) = SubSeq(t, i, h) THEN Split(s, t, h + 1, n) ELSE Split(s, t, i, h)
FirstDiff(s, t, n) == IF Take(s, n) = Take(t, n) THEN 0 ELSE Split(s, t, 1, n)
Sign3(s, t) == IF s = t THEN 0
               ELSE LET d == FirstDiff(s, t, Min(Len(s), Len(t))) IN
                    IF d = 0 THEN (IF Len(s) < Len(t) THEN -1 ELSE 1)
                    ELSE IF Rank(At(s, d)) < Rank(At(t, d)) THEN -1 ELSE 1

\* searching; positions are 0-based, -1 is npos (also as a start position)
RECURSIVE FindUp(_, _, _)
FindUp(s, t, p) == IF p + Len(t) > Len(s) THEN -1 ELSE IF SubSeq(s, p + 1, p + Len(t)) = t THEN p ELSE FindUp(s, t, p + 1)
RECURSIVE FindDown(_, _, _)
FindDown(s, t, p) == IF p < 0 THEN -1 ELSE IF SubSeq(s, p + 1, p + Len(t)) = t THEN p ELSE FindDown(s, t, p - 1)
RECURSIVE SetUp(_, _, _, _)
SetUp(s, t, p, w) == IF p >= Len(s) THEN -1 ELSE IF In(t, At(s, p + 1)) = w THEN p ELSE SetUp(s, t, p + 1, w)
RECURSIVE SetDown(_, _, _, _)
SetDown(s, t, p, w) == IF p < 0 THEN -1 ELSE IF In(t, At(s, p + 1)) = w THEN p ELSE SetDown(s, t, p - 1, w)
Found(f, s, t, p) ==
  LET n == Len(s) IN
  CASE f = "find" -> IF p < 0 \/ p > n THEN -1 ELSE FindUp(s, t, p)
    [] f = "rfind" -> IF Len(t) > n THEN -1 ELSE FindDown(s, t, IF p < 0 THEN n - Len(t) ELSE Min(p, n - Len(t)))
    [] f = "ffo" -> IF p < 0 THEN -1 ELSE SetUp(s, t, p, TRUE)
    [] f = "ffno" -> IF p < 0 THEN -1 ELSE SetUp(s, t, p, FALSE)
    [] f = "flo" -> SetDown(s, t, IF p < 0 THEN n - 1 ELSE Min(p, n - 1), TRUE)
    [] f = "flno" -> SetDown(s, t, IF p < 0 THEN n - 1 ELSE Min(p, n - 1), FALSE)
    [] f = "has" -> B(FindUp(s, t, 0) >= 0)
    [] f = "sw" -> B(Len(t) <= n /\ Take(s, Len(t)) = t)
    [] f = "ew" -> B(Len(t) <= n /\ Drop(s, n - Len(t)) = t)

\* ------------------------------------------------------------------- state
\* l live, v text, cap, io: text inside the object, r: resource, g: copies that may share storage (model only)
Dead == [l |-> 0, v |-> "", cap |-> 0, io |-> 0, r |-> 0, g |-> 0]
NoIn == [t |-> "", f |-> 0, ws |-> 1, ex |-> 0]
InitSt(e) == [sm |-> e.sm, md |-> e.md, sso |-> e.sso, ar |-> e.ar, bad |-> 0, gone |-> {}, in |-> NoIn, sl |-> [i \in 1..e.ns |-> Dead]]
El(st, a) == st.sl[a].v
N(st, a) == Len(st.sl[a].v)
Cp(st, a) == st.sl[a].cap

\* the text an argument of kind k stands for
Arg(o) == IF o.k \in {"cs", "ics", "+cs", "=cs"} THEN CStr(o.t) ELSE o.t
\* the argument of an operation that takes it from the string itself
SelfArg(s, o) == CASE o.k \in {"cs", "ics"} -> CStr(Drop(s, o.p))
                   [] o.k \in {"str", "+="} -> s
                   [] OTHER -> Mid(s, o.p, o.n)

\* ------------------------------------------------------- abstract effects
CtorOps == {"c0", "cfill", "ctx", "csub", "copyctor", "cmut", "movector", "clone", "sub", "subm", "plus", "cnul"}
SelfOps == {"sap", "sas", "sins", "srp"}
ReadOps == {"at", "cpy", "find", "cmp", "cmpr", "hash", "os", "fmt", "conv", "sopen", "kill", "end", "skip"}
StreamOps == {"word", "line"}
AppendOps == {"apx", "apn", "apstr", "apsub", "push", "sap"}
MoveOps == {"movector", "moveas", "asmv", "swap", "subm"}
CopyOps == {"copyctor", "clone", "copyas", "asstr", "cmut"}
ThrowOps == {"csub", "sub", "subm", "assub", "apsub", "insx", "insn", "insstr", "inssub", "er", "rpx", "rpn", "rpstr", "rpsub", "at", "cpy", "cmpr", "sins", "srp", "sap", "sas"}

\* slots whose text an operation may change besides its target
MovedFrom(o) == CASE o.op \in {"movector", "moveas", "asmv", "subm"} -> {o.b}
                  [] o.op = "plus" -> (IF o.f \in {"ms", "mm", "mt", "mc"} THEN {o.b} ELSE {}) \cup (IF o.f \in {"sm", "mm", "tm", "cm"} THEN {o.c} ELSE {})
                  [] OTHER -> {}
Touched(o) == IF o.op \in ReadOps THEN {}
              ELSE {o.a} \cup MovedFrom(o) \cup (IF o.op \in {"swap", "cmut"} THEN {o.b} ELSE {})
\* slots whose text afterwards is not prescribed
Free(o) == (MovedFrom(o) \ {Get(o, "a", 0)}) \cup (IF o.op \in {"moveas", "asmv"} /\ o.a = o.b THEN {o.a} ELSE {})

PlusL(st, o) == IF o.f \in {"ts", "tm"} THEN CStr(o.t) ELSE IF o.f \in {"cs", "cm"} THEN o.t ELSE El(st, o.b)
PlusR(st, o) == IF o.f \in {"st", "mt"} THEN CStr(o.t) ELSE IF o.f \in {"sc", "mc"} THEN o.t ELSE El(st, o.c)

\* extraction from the stream: [t text (or "" if untouched), w written, f flags, left]
RECURSIVE SkipWs(_)
IsWs(x) == x \in {"_", "|", ">"}
SkipWs(t) == IF t # "" /\ IsWs(At(t, 1)) THEN SkipWs(Drop(t, 1)) ELSE t
RECURSIVE WordLen(_, _)
WordLen(t, i) == IF i > Len(t) \/ IsWs(At(t, i)) THEN i - 1 ELSE WordLen(t, i + 1)
\* flags: 1 eof, 2 fail
Word(in, w) ==
  IF in.f # 0 THEN [w |-> FALSE, t |-> "", f |-> IF in.f \in {2, 3} THEN in.f ELSE in.f + 2, left |-> in.t, wd |-> w]
  ELSE LET t == IF in.ws = 1 THEN SkipWs(in.t) ELSE in.t IN
       IF in.ws = 1 /\ t = "" THEN [w |-> FALSE, t |-> "", f |-> 3, left |-> "", wd |-> w]
       ELSE LET full == WordLen(t, 1)
                n == IF w > 0 THEN Min(w, full) ELSE full
                eof == n = Len(t) /\ ~(w > 0 /\ n = w)
            IN [w |-> TRUE, t |-> Take(t, n), f |-> B(eof) + (IF n = 0 THEN 2 ELSE 0), left |-> Drop(t, n), wd |-> 0]
Line(in, d) ==
  IF in.f # 0 THEN [w |-> FALSE, t |-> "", f |-> IF in.f \in {2, 3} THEN in.f ELSE in.f + 2, left |-> in.t]
  ELSE LET i == IndexFrom(in.t, d, 1) IN
       IF i = 0 THEN [w |-> TRUE, t |-> in.t, f |-> IF in.t = "" THEN 3 ELSE 1, left |-> ""]
       ELSE [w |-> TRUE, t |-> Take(in.t, i - 1), f |-> 0, left |-> Drop(in.t, i)]
\* with nothing left even the standard getline clears the text first
Streamed(st, o) == IF o.op = "word" THEN Word(st.in, o.w) ELSE Line(st.in, o.d)

\* new text of slot a
Body(st, o) ==
  LET s == El(st, o.a) IN
  CASE o.op \in {"c0", "cnul", "destroy", "clear"} -> ""
    [] o.op \in {"cfill", "asn"} -> Rep(o.n, o.x)
    [] o.op \in {"ctx", "asx"} -> Arg(o)
    [] o.op \in {"csub", "sub", "subm", "assub"} -> Mid(El(st, o.b), o.p, o.n)
    [] o.op \in {"copyctor", "cmut", "movector", "clone", "copyas", "moveas", "asmv", "asstr", "swap"} -> El(st, o.b)
    [] o.op = "plus" -> PlusL(st, o) \o PlusR(st, o)
    [] o.op = "apx" -> s \o Arg(o)
    [] o.op = "apn" -> s \o Rep(o.n, o.x)
    [] o.op = "push" -> s \o o.x
    [] o.op = "apstr" -> s \o El(st, o.b)
    [] o.op = "apsub" -> s \o Mid(El(st, o.b), o.p, o.n)
    [] o.op = "insx" -> Splice(s, o.p, 0, Arg(o))
    [] o.op \in {"insn", "insni"} -> Splice(s, o.p, 0, Rep(o.n, o.x))
    [] o.op = "insc" -> Splice(s, o.p, 0, o.x)
    [] o.op = "insstr" -> Splice(s, o.p, 0, El(st, o.b))
    [] o.op = "inssub" -> Splice(s, o.p, 0, Mid(El(st, o.b), o.p2, o.n2))
    [] o.op = "er" -> Splice(s, o.p, Clamp(s, o.p, o.n), "")
    [] o.op = "eri" -> Splice(s, o.p, 1, "")
    [] o.op = "err" -> Splice(s, o.p, o.q - o.p, "")
    [] o.op = "pop" -> Take(s, Len(s) - 1)
    [] o.op = "rpx" -> Splice(s, o.p, Clamp(s, o.p, o.n), Arg(o))
    [] o.op = "rpn" -> Splice(s, o.p, Clamp(s, o.p, o.n), Rep(o.m, o.x))
    [] o.op = "rpstr" -> Splice(s, o.p, Clamp(s, o.p, o.n), El(st, o.b))
    [] o.op = "rpsub" -> Splice(s, o.p, Clamp(s, o.p, o.n), Mid(El(st, o.b), o.p2, o.n2))
    [] o.op = "rsz" -> IF o.n <= Len(s) THEN Take(s, o.n) ELSE s \o Rep(o.n - Len(s), o.x)
    [] o.op = "mut" -> Splice(s, o.p, 1, o.x)
    [] o.op = "sap" -> s \o SelfArg(s, o)
    [] o.op = "sas" -> SelfArg(s, o)
    [] o.op = "sins" -> Splice(s, o.q, 0, SelfArg(s, o))
    [] o.op = "srp" -> Splice(s, o.q, Clamp(s, o.q, o.m), SelfArg(s, o))
    [] o.op \in StreamOps -> LET r == Streamed(st, o) IN IF r.w THEN r.t ELSE s
    [] OTHER -> s

\* the caller's side of the contract, for operations that do not check it themselves
PieceOK(st, o) == CASE o.k \in {"pn", "view", "it", "cit"} -> o.p + o.n <= N(st, o.a)
                    [] o.k \in {"cs", "ics"} -> o.p <= N(st, o.a)
                    [] o.k = "push" -> o.p < N(st, o.a)
                    [] OTHER -> TRUE
Legal(st, o) ==
  /\ Has(o, "a") => st.sl[o.a].l = B(o.op \notin CtorOps)
  /\ (Has(o, "b") /\ o.b > 0) => st.sl[o.b].l = 1
  /\ (Has(o, "c") /\ o.op = "plus" /\ o.c > 0) => st.sl[o.c].l = 1
  /\ CASE o.op = "insx" -> o.k \in {"cs", "pn"} \/ o.p <= N(st, o.a)
       [] o.op \in {"insni", "insc"} -> o.p <= N(st, o.a)
       [] o.op = "eri" -> o.p < N(st, o.a)
       [] o.op = "err" -> o.p <= o.q /\ o.q <= N(st, o.a)
       [] o.op = "pop" -> N(st, o.a) > 0
       [] o.op = "rpx" -> o.k \in {"cs", "pn"} \/ o.p <= N(st, o.a)
       [] o.op \in {"rpn", "rpstr"} -> o.k # "it" \/ o.p <= N(st, o.a)
       [] o.op = "mut" -> o.p < N(st, o.a) /\ (o.k = "back" => o.p = N(st, o.a) - 1)
       [] o.op = "cmut" -> o.p < N(st, o.b)
       [] o.op \in {"sap", "sas"} -> PieceOK(st, o)
       [] o.op = "sins" -> PieceOK(st, o) /\ (o.k \in {"it", "cit"} => o.q <= N(st, o.a))
       [] o.op = "srp" -> PieceOK(st, o) /\ (o.k \in {"it", "cit", "ics"} => o.q <= N(st, o.a))
       [] o.op = "kill" -> \A i \in DOMAIN st.sl : st.sl[i].l = 0 \/ st.sl[i].r # o.r
       [] OTHER -> TRUE
\* nothing was called: a no-op, the end, or an operation that would break the caller's side of the contract here
Idle(e) == e.op \in {"skip", "end"} \/ Has(e, "ill")

\* the exception an operation must throw: 0 none, 2 out_of_range, 3 length_error, 4 logic_error, 5 stream failure, 6 format error
Huge(o) == Get(o, "hg", 0) > 0
Oor(st, o) ==
  CASE o.op \in {"csub", "sub", "subm", "assub", "apsub"} -> o.p > N(st, o.b)
    [] o.op \in {"insx", "insn", "insstr"} -> o.p > N(st, o.a)
    [] o.op = "inssub" -> o.p > N(st, o.a) \/ o.p2 > N(st, o.b)
    [] o.op \in {"er", "rpx", "rpn", "rpstr"} -> o.p > N(st, o.a)
    [] o.op = "rpsub" -> o.p > N(st, o.a) \/ o.p2 > N(st, o.b)
    [] o.op = "at" -> o.p >= N(st, o.a)
    [] o.op = "cpy" -> o.p > N(st, o.a)
    [] o.op = "cmpr" -> o.p > N(st, o.a) \/ (o.k = "sub" /\ o.p2 > N(st, o.b))
    [] o.op \in {"sins", "srp"} -> o.q > N(st, o.a) \/ (o.k = "sub" /\ o.p > N(st, o.a))
    [] o.op \in {"sap", "sas"} -> o.k = "sub" /\ o.p > N(st, o.a)
    [] OTHER -> FALSE
ExcWant(st, o) == IF o.op = "cnul" THEN 4
                  ELSE IF Oor(st, o) THEN 2
                  ELSE IF o.op = "fmt" /\ o.w < 0 THEN 6
                  ELSE IF o.op \in StreamOps /\ st.in.ex = 1 /\ Streamed(st, o).f \in {2, 3} THEN 5
                  ELSE 0
\* an impossible length: n = 2^64 - hg; past the largest size when the text is at least that long
Wraps(st, o) == o.op \in {"apn", "insn", "insni"} /\ N(st, o.a) >= o.hg

Want(st, o, i) ==
  CASE o.op \in ReadOps -> El(st, i)
    [] i = o.a -> Body(st, o)
    [] o.op = "swap" /\ i = o.b -> El(st, o.a)
    [] o.op = "cmut" /\ i = o.b -> Splice(El(st, i), o.p, 1, o.x)
    [] i \in Free(o) -> ""
    [] OTHER -> El(st, i)
WantL(st, o, i) ==
  CASE o.op \in ReadOps -> st.sl[i].l
    [] o.op \in CtorOps /\ i = o.a -> 1
    [] o.op = "destroy" /\ i = o.a -> 0
    [] OTHER -> st.sl[i].l
\* the resource a string's text must come from
WantR(st, o, i) ==
  CASE o.op \in ReadOps -> st.sl[i].r
    [] o.op \in {"c0", "cfill", "ctx", "csub"} /\ i = o.a -> Get(o, "r", 0)
    [] o.op \in {"copyctor", "cmut", "movector", "clone", "sub", "subm", "moveas", "asmv", "swap"} /\ i = o.a -> st.sl[o.b].r
    [] o.op = "plus" /\ i = o.a -> IF o.f \in {"ts", "tm", "cs", "cm"} THEN st.sl[o.c].r
                                   ELSE st.sl[o.b].r
    [] o.op = "swap" /\ i = o.b -> st.sl[o.a].r
    [] o.op = "destroy" /\ i = o.a -> 0
    [] OTHER -> st.sl[i].r
\* either operand's resource may hold the result of s + move(t)
RAny(st, o, i) == IF o.op = "plus" /\ i = o.a /\ o.f \in {"sm", "mm"} THEN {st.sl[o.b].r, st.sl[o.c].r} ELSE {WantR(st, o, i)}

\* numbers and texts an operation returns (-9: nothing)
Ret(st, o) ==
  CASE o.op \in {"insni", "insc", "eri", "err"} -> o.p
    [] o.op = "insx" /\ o.k \in {"lst", "inp", "il", "ptr"} -> o.p
    [] o.op = "sins" /\ o.k = "it" -> o.q
    [] o.op = "cmpr" -> Sign3(Mid(El(st, o.a), o.p, o.n),
                              CASE o.k = "str" -> El(st, o.b) [] o.k = "sub" -> Mid(El(st, o.b), o.p2, o.n2)
                                [] o.k = "cs" -> CStr(El(st, o.b)) [] o.k = "pn" -> Take(El(st, o.b), Min(o.n2, N(st, o.b))))
    [] o.op = "hash" -> IF El(st, o.a) = El(st, o.b) THEN 1 ELSE -9
    [] OTHER -> -9
\* every start position from -1 (npos) to two past the end
Needle(o) == IF o.k = "cs" THEN CStr(o.t) ELSE o.t
Finds(st, o) == IF o.f \in {"has", "sw", "ew"} THEN <<Found(o.f, El(st, o.a), Needle(o), 0)>>
                ELSE [i \in 1..(N(st, o.a) + 4) |-> Found(o.f, El(st, o.a), Needle(o), i - 2)]
Pad(s, o) == LET f == Rep(o.w - Len(s), o.x) IN
             CASE o.ad = "l" -> s \o f
               [] o.ad = "c" -> Rep(((o.w - Len(s)) \div 2), o.x) \o s \o Rep(o.w - Len(s) - ((o.w - Len(s)) \div 2), o.x)
               [] OTHER -> f \o s
RetT(st, o) ==
  CASE o.op = "at" -> At(El(st, o.a), o.p + 1)
    [] o.op = "cpy" -> Mid(El(st, o.a), o.p, o.n)
    [] o.op = "os" -> Pad(El(st, o.a), o)
    [] o.op = "fmt" -> IF o.w = 0 THEN El(st, o.a) ELSE Pad(El(st, o.a), o)
    [] o.op = "conv" -> IF o.k = "cs" THEN CStr(El(st, o.a)) ELSE El(st, o.a)
    [] OTHER -> ""

\* <, <=, >, >=, ==, != and the sign of the three-way result
Rel7(s, t) == LET c == Sign3(s, t) IN <<B(c < 0), B(c <= 0), B(c > 0), B(c >= 0), B(c = 0), B(c # 0), c>>
\* string/string, string/std, std/string, string/C string, C string/string, string/view
CmpWant(s, t) == Rel7(s, t) \o Rel7(s, t) \o Rel7(s, t) \o Take(Rel7(s, CStr(t)), 6) \o <<Sign3(s, CStr(t))>> \o Take(Rel7(CStr(s), t), 6) \o Rel7(s, t)

\* ------------------------------------------------------- reference storage
Cat(st, c) == IF c <= st.sm THEN 0 ELSE IF c <= st.md THEN 1 ELSE 2
Fresh(st, n) == IF st.sso = 1 /\ n <= st.sm THEN st.sm ELSE n
Shared(st, a) == st.sl[a].g > 0 /\ Cardinality({i \in DOMAIN st.sl : st.sl[i].l = 1 /\ st.sl[i].g = st.sl[a].g}) > 1
NewG(st) == LET used == {st.sl[i].g : i \in DOMAIN st.sl} IN CHOOSE k \in 1..(Len(st.sl) + 1) : k \notin used
Grow(st, c, n) == IF n <= c THEN c ELSE Max(n, IF c <= st.sm THEN 2 * st.sm ELSE 1 + (c * 3) \div 2)
GroupAfter(st, o, i) ==
  CASE o.op \in ReadOps -> st.sl[i].g
    [] o.op = "copyctor" /\ i \in {o.a, o.b} /\ Cat(st, Cp(st, o.b)) = 2 -> IF st.sl[o.b].g > 0 THEN st.sl[o.b].g ELSE NewG(st)
    [] o.op \in {"movector", "moveas", "asmv", "swap"} /\ i = o.a -> st.sl[o.b].g
    [] o.op = "swap" /\ i = o.b -> st.sl[o.a].g
    [] i \in MovedFrom(o) -> 0
    [] o.op = "cmut" /\ i = o.b -> 0
    [] i = o.a -> 0
    [] OTHER -> st.sl[i].g
NewCap(st, o) ==
  LET a == o.a  c == IF Shared(st, a) THEN N(st, a) ELSE Cp(st, a)  n == Len(Body(st, o)) IN
  CASE o.op \in {"c0", "destroy"} -> IF o.op = "c0" THEN st.sm ELSE 0
    [] o.op \in CtorOps \ {"copyctor", "movector"} -> Fresh(st, n)
    [] o.op = "copyctor" -> IF Cat(st, Cp(st, o.b)) = 2 THEN N(st, o.b) ELSE Fresh(st, n)
    [] o.op \in {"movector", "moveas", "asmv", "swap"} -> Cp(st, o.b)
    [] o.op \in {"copyas", "asx", "asn", "assub", "asstr", "sas", "rsz"} -> Max(c, n)
    [] o.op = "resv" -> Max(c, o.n)
    [] o.op = "shrink" -> Fresh(st, n)
    [] OTHER -> Grow(st, c, n)
CapAfter(st, o, i) ==
  CASE o.op \in ReadOps -> Cp(st, i)
    [] i = o.a -> NewCap(st, o)
    [] o.op = "swap" /\ i = o.b -> Cp(st, o.a)
    [] i \in MovedFrom(o) -> st.sm
    [] o.op = "copyctor" /\ i = o.b /\ Cat(st, Cp(st, i)) = 2 -> N(st, i)   \* shared: no room of its own
    [] OTHER -> Cp(st, i)

RECURSIVE Eager(_, _)
Eager(f(_), n) == IF n = 0 THEN <<>> ELSE Append(Eager(f, n - 1), f(n))
Io(st, c) == B(st.sso = 1 /\ c <= st.sm)
SameSl(st) == Eager(LAMBDA i : st.sl[i] @@ [mv |-> 0, term |-> 1, acc |-> 1, loc |-> IF st.sl[i].io = 1 THEN 0 ELSE st.sl[i].r], Len(st.sl))
MayAlloc(st, o) == o.op \notin ReadOps \cup {"destroy", "c0", "movector", "moveas", "asmv", "swap", "cnul"}
                   /\ (CapAfter(st, o, o.a) # Cp(st, o.a) \/ Shared(st, o.a) \/ (o.op \in CtorOps /\ CapAfter(st, o, o.a) > st.sm))

\* the event a correct implementation produces
Ref(st, o) ==
  LET fa == Get(o, "fa", 0) > 0 /\ ~Oor(st, o) /\ MayAlloc(st, o)
      x == IF Huge(o) THEN (IF Wraps(st, o) THEN 3 ELSE 1) ELSE IF ExcWant(st, o) > 0 THEN ExcWant(st, o) ELSE IF fa THEN 1 ELSE 0
      nsl == IF x \notin {0, 5} THEN SameSl(st)
             ELSE Eager(LAMBDA i : LET c == CapAfter(st, o, i) IN
                     [l |-> WantL(st, o, i), v |-> Want(st, o, i), cap |-> c, io |-> Io(st, c), r |-> WantR(st, o, i), g |-> GroupAfter(st, o, i),
                      loc |-> IF Io(st, c) = 1 THEN 0 ELSE WantR(st, o, i), term |-> 1, acc |-> 1,
                      mv |-> IF i \in Touched(o) /\ (o.op \in CtorOps \cup {"moveas", "asmv", "swap", "destroy"} \/ c # Cp(st, i)) THEN 1 ELSE 0], Len(st.sl))
  IN [sl |-> nsl, exc |-> x, af |-> B(x = 1 /\ fa), lt |-> 0, leak |-> 0,
      ret |-> IF x > 0 THEN -9 ELSE Ret(st, o)] @@ o
     @@ (IF x = 0 /\ o.op \in {"at", "cpy", "os", "fmt", "conv"} THEN [rt |-> RetT(st, o), w2 |-> 0] ELSE <<>>)
     @@ (IF o.op = "find" THEN [rs |-> Finds(st, o)] ELSE <<>>)
     @@ (IF o.op = "clone" THEN [uniq |-> 1] ELSE <<>>)
     @@ (IF o.op = "cmp" THEN [c |-> CmpWant(El(st, o.a), El(st, o.b))] ELSE <<>>)
     @@ (IF o.op \in StreamOps THEN [fl |-> Streamed(st, o).f, left |-> Streamed(st, o).left, w2 |-> IF o.op = "word" THEN Streamed(st, o).wd ELSE 0] ELSE <<>>)

\* a slot as reported: the text is left out when it did not change
V(st, e, i) == Get(e.sl[i], "v", El(st, i))
Post(st, e) ==
  IF Idle(e) \/ ~Has(e, "sl") THEN st
  ELSE LET s1 == [st EXCEPT !.sl = Eager(LAMBDA i : [l |-> e.sl[i].l, v |-> V(st, e, i), cap |-> e.sl[i].cap, io |-> e.sl[i].io, r |-> e.sl[i].r,
                                                     g |-> IF e.exc \in {0, 5} THEN GroupAfter(st, e, i) ELSE st.sl[i].g], Len(st.sl)),
                            !.bad = IF e.exc = 1 THEN 1 ELSE @] IN
       CASE e.op = "sopen" -> [s1 EXCEPT !.in = [t |-> e.t, f |-> 0, ws |-> e.ws, ex |-> e.ex]]
         [] e.op \in StreamOps -> [s1 EXCEPT !.in = [st.in EXCEPT !.t = e.left, !.f = e.fl]]
         [] e.op = "kill" -> [s1 EXCEPT !.gone = @ \cup {e.r}]
         [] OTHER -> s1

\* ------------------------------------------------------------------ clauses
Done(st, e) == (e.exc = 0 \/ (e.exc = 5 /\ e.op \in StreamOps)) /\ ~Huge(e) /\ ~Oor(st, e)
BodyOK(st, e, S) == \A i \in S : e.sl[i].l = WantL(st, e, i) /\ V(st, e, i) = Want(st, e, i)
RetOK(st, e) == (Ret(st, e) = -9 \/ e.ret = Ret(st, e)) /\ (Has(e, "rt") => e.rt = RetT(st, e))
\* the exceptions of a call within the rules
Expected(st, e) == IF e.af = 1 THEN e.exc \in {1, ExcWant(st, e)}
                   ELSE IF Huge(e) THEN e.exc \in (IF Wraps(st, e) THEN {3} ELSE {1, 3})
                   ELSE e.exc = ExcWant(st, e)
Same(st, e, i) == e.sl[i].l = st.sl[i].l /\ V(st, e, i) = El(st, i)
Must(e) == Touched(e) \ Free(e)

S01(st, e) == Expected(st, e) /\ (Done(st, e) => BodyOK(st, e, Must(e)) /\ RetOK(st, e)) /\ \A i \in DOMAIN e.sl : e.sl[i].acc = 1
S02(st, e) == /\ \A i \in DOMAIN e.sl \ Touched(e) : Same(st, e, i) /\ e.sl[i].term = 1   \* also when read as a C string
              /\ (e.op \in CopyOps /\ Done(st, e)) => BodyOK(st, e, {e.a, e.b})
              /\ e.op = "mut" => V(st, e, e.a) = Want(st, e, e.a)
              /\ (e.op = "clone" /\ Done(st, e)) => e.uniq = 1
              /\ e.lt = 0 /\ e.leak = 0
InPlace(st, e) == /\ Done(st, e) /\ e.op \in AppendOps \cup {"rsz"}
                  /\ LET n == Len(Body(st, e)) IN n > N(st, e.a) /\ n <= Cp(st, e.a)
                  /\ Get(e, "k", "") # "inp"      \* a single pass is gathered elsewhere first
                  /\ (st.sso = 1 \/ st.sl[e.a].io = 0)
S03(st, e) == /\ \A i \in DOMAIN e.sl : e.sl[i].l = 1 => e.sl[i].cap >= Len(V(st, e, i)) /\ e.sl[i].term = 1 /\ e.sl[i].acc = 1
              /\ (e.op = "resv" /\ Done(st, e)) => e.sl[e.a].cap >= e.n /\ Same(st, e, e.a)
              /\ (e.op \in {"shrink", "clear", "rsz", "resv"} /\ Done(st, e)) => BodyOK(st, e, {e.a})
              /\ InPlace(st, e) => e.sl[e.a].mv = 0
S04(st, e) == (e.op \in SelfOps \/ (e.op \in {"copyas", "asstr", "apstr", "apsub", "assub", "insstr", "inssub", "rpstr", "rpsub"} /\ e.a = e.b))
              => Expected(st, e) /\ (Done(st, e) => BodyOK(st, e, {e.a}) /\ RetOK(st, e)) /\ e.lt = 0
S05(st, e) == e.op = "find" => e.exc = 0 /\ e.rs = Finds(st, e)
S06(st, e) == /\ e.op = "cmp" => e.exc = 0 /\ e.c = CmpWant(El(st, e.a), El(st, e.b))
              /\ (e.op = "cmpr" /\ Done(st, e)) => e.ret = Ret(st, e)
              /\ e.op = "hash" => RetOK(st, e)
S07(st, e) == /\ Expected(st, e)
              /\ e.exc \in {2, 3, 4} => \A i \in DOMAIN e.sl : Same(st, e, i)
              /\ (e.op \in ThrowOps /\ Done(st, e)) => BodyOK(st, e, Must(e)) /\ RetOK(st, e)
\* loc: 0 inside the object, k resource k, -1 elsewhere
S08(st, e) == /\ Expected(st, e)
              /\ \A i \in DOMAIN e.sl : e.sl[i].l = 1 => e.sl[i].loc \in {0, e.sl[i].r}
              /\ IF e.exc = 0 THEN \A i \in DOMAIN e.sl : e.sl[i].l = 1 => (i \in Free(e) \/ e.sl[i].r \in RAny(st, e, i))
                 ELSE \A i \in DOMAIN e.sl : e.sl[i].l = 1 => e.sl[i].r = st.sl[i].r
              /\ \A i \in DOMAIN e.sl \ Touched(e) : Same(st, e, i)
              /\ Done(st, e) => BodyOK(st, e, Must(e))
              /\ e.lt = 0 /\ e.leak = 0
S09(st, e) == /\ e.op \in {"os", "fmt", "conv"} => Expected(st, e) /\ (e.exc = 0 => e.rt = RetT(st, e)) /\ (e.op = "os" => e.w2 = 0)
              /\ e.op \in StreamOps => LET r == Streamed(st, e) IN
                    /\ Expected(st, e)
                    /\ V(st, e, e.a) = Body(st, e)
                    /\ e.fl = r.f /\ e.left = r.left
                    /\ e.op = "word" => e.w2 = r.wd
              /\ (e.op \in {"ctx", "asx", "apx"} /\ Done(st, e)) => BodyOK(st, e, {e.a})
S10(st, e) == /\ e.op \in MoveOps => Expected(st, e) /\ (Done(st, e) => BodyOK(st, e, Must(e)))
              /\ \A i \in DOMAIN e.sl : e.sl[i].l = 1 => e.sl[i].cap >= Len(V(st, e, i)) /\ e.sl[i].term = 1
              /\ (Done(st, e)) => BodyOK(st, e, Must(e))
              /\ \A i \in DOMAIN e.sl \ Touched(e) : Same(st, e, i)
              /\ e.lt = 0 /\ e.leak = 0
S11(st, e) == /\ Expected(st, e)
              /\ (e.af = 1 /\ e.op \notin StreamOps) => e.exc > 0
              /\ e.exc = 1 => \A i \in DOMAIN e.sl : (e.op \in StreamOps /\ i = e.a) \/ (e.op = "plus" /\ i \in MovedFrom(e)) \/ Same(st, e, i)
              /\ \A i \in DOMAIN e.sl : e.sl[i].l = 1 => e.sl[i].cap >= Len(V(st, e, i)) /\ e.sl[i].term = 1 /\ e.sl[i].acc = 1
              /\ (Done(st, e) /\ st.bad = 1) => BodyOK(st, e, Must(e))
              /\ e.lt = 0 /\ e.leak = 0

Clause(p, st, e) ==
  IF e.op = "crash" THEN FALSE
  ELSE IF Idle(e) THEN (p \in {"S02", "S08", "S10", "S11"} => e.lt = 0 /\ e.leak = 0)
  ELSE CASE p = "S01" -> S01(st, e) [] p = "S02" -> S02(st, e) [] p = "S03" -> S03(st, e)
         [] p = "S04" -> S04(st, e) [] p = "S05" -> S05(st, e) [] p = "S06" -> S06(st, e)
         [] p = "S07" -> S07(st, e) [] p = "S08" -> S08(st, e) [] p = "S09" -> S09(st, e)
         [] p = "S10" -> S10(st, e) [] p = "S11" -> S11(st, e)
Broken(st, e) == {p \in Props : ~Clause(p, st, e)}
\* the rest of a behaviour makes sense only while the contents are as modelled
Sane(st, e) == e.op \in {"skip", "end"} \/ (Has(e, "ill") /\ ~Legal(st, e)) \/
  /\ \A i \in DOMAIN e.sl \ Free(e) : IF e.exc \in {0, 5} THEN V(st, e, i) = Want(st, e, i) /\ e.sl[i].l = WantL(st, e, i) ELSE Same(st, e, i)
  /\ e.exc # 1 \/ e.op # "plus"
  /\ (e.exc \in {0, 5} => \A i \in Free(e) : V(st, e, i) = Want(st, e, i))
StateOK(st) == \A i \in DOMAIN st.sl : /\ st.sl[i].l \in {0, 1}
                                       /\ st.sl[i].cap >= Len(st.sl[i].v)
                                       /\ st.sl[i].l = 0 => st.sl[i].v = ""
=============================================================================
