------------------------------ MODULE OptionsMC ------------------------------
(* Bounded exploration of the parser model and generation of behaviours.     *)
EXTENDS Options, Json, Randomization

CONSTANTS Profile, Mode, Depth

VARIABLES st, hist, d0
\* what a parser went through may matter although the model's state does not show it
View == <<st, IF Profile \in {"P05", "P06"} THEN [i \in 1..Len(hist) |-> hist[i].op] ELSE <<>>>>
Big == Mode = "sim"
NP == 3

Ds == <<"filename", "quiet", "ratio", "num", "cnt", "mode", "rate", "aa", "bb", "cc", "k1", "k2", "help", "usage", "version", "kc", "d", "ddd", "e-f">>
R(n, S) == IF Big /\ Cardinality(S) > n THEN RandomSubset(n, S) ELSE S

\* ------------------------------------------------------------- declarations
Add(p, form, names, at) == [op |-> "add", p |-> p, form |-> form, names |-> names] @@ at
S(px, x) == px \o x
L(px, x) == px \o px \o x
Mixed(p, px) == <<
  Add(p, "il", <<S(px, "f"), L(px, "file")>>, [dest |-> "filename", act |-> "Store", help |-> "write report to FILE"]),
  Add(p, "two", <<S(px, "q"), L(px, "quiet")>>, [act |-> "StoreTrue", ty |-> "Bool"]),
  Add(p, "two", <<S(px, "r"), L(px, "ratio")>>, [act |-> "Append", ty |-> "Int", help |-> "ratios"]),
  Add(p, "one", <<S(px, "n")>>, [act |-> "Store", ty |-> "Int", dest |-> "num", def |-> "7", dk |-> "i"]),
  Add(p, "il", <<S(px, "c"), S(px, "cc"), L(px, "count")>>, [act |-> "Count", ty |-> "Bool", dest |-> "cnt"]),
  Add(p, "two", <<S(px, "m"), L(px, "mode")>>, [act |-> "Store", ch |-> <<"work", "wait">>, env |-> "VF_MODE"])>>
Small2(p, px) == <<
  Add(p, "two", <<S(px, "a"), L(px, "aa")>>, [act |-> "Append"]),
  Add(p, "one", <<L(px, "bb")>>, [act |-> "Store", ty |-> "Double"])>>

\* --------------------------------------------------------------- arguments
Words1(px) == {S(px, "f"), S(px, "f="), S(px, "f=x"), L(px, "file=a=b"), S(px, "q"), S(px, "r"), S(px, "r=1,2"), "5", "w", "", S(px, "z"), S(px, "c"), px}
Words2(px) == Words1(px) \cup {L(px, "file"), S(px, "q=0"), S(px, "r =3"), L(px, "zz=1"), L(px, ""), S(px, "fx"), S(px, "n"), S(px, "n=12ab"), "1,2", " , ", "a, b", S(px, "m"), S(px, "m=work"),
                               S(px, "m=x"), "wait", S(px, "cc"), L(px, "count"), "+f", "-f", S(px, "h"), L(px, "usage"), S(px, "v=1"), S(px, "a"), S(px, "a=p,q"), L(px, "bb"), L(px, "bb=2.5"), "2.5", S(px, "f= x ")}
RECURSIVE Seqs(_, _)
Seqs(A, n) == IF n = 0 THEN {<<>>} ELSE LET h == Seqs(A, n - 1) IN h \cup {Append(x, y) : x \in {z \in h : Len(z) = n - 1}, y \in A}
RECURSIVE RndSeqs(_, _)
RndSeqs(A, n) == IF n = 0 THEN {<<>>} ELSE {Append(x, y) : x \in RndSeqs(A, n - 1), y \in RandomSubset(2, A)}
Par(p, av) == [op |-> "parse", p |-> p, a0 |-> "prog", av |-> av, ds |-> Ds]
Args(px) == IF Big THEN UNION {RandomSubset(2, RndSeqs(Words2(px), n)) : n \in {1, 3, 5}} 
            ELSE IF Profile = "P01" THEN Seqs(Words1(px), IF px = "-" THEN 3 ELSE 2) \cup Seqs(Words2(px), 2)
            ELSE IF Profile = "P05" THEN {<<>>, <<"w", S(px, "f"), "x">>, <<S(px, "r=1"), "2", S(px, "c"), S(px, "c"), S(px, "z")>>, <<S(px, "n")>>, <<S(px, "h"), S(px, "u")>>}
            ELSE {<<>>, <<"w", S(px, "f=x"), S(px, "a"), "y">>, <<S(px, "c"), L(px, "bb=2.5"), S(px, "q")>>}

Alive(s) == {i \in 1..NP : s.ps[i].l = 1}
Gone(s) == {i \in 1..NP : s.ps[i].l = 0}
Fst(S0) == CHOOSE x \in S0 : \A y \in S0 : x <= y
Parses(s) == UNION {{Par(i, av) : av \in Args(s.ps[i].px)} : i \in Alive(s)} \cup (IF Big \/ Profile = "P05" THEN {[Par(i, <<>>) EXCEPT !.av = <<>>] @@ [zero |-> 1] : i \in Alive(s)} ELSE {})
Hasv(s) == UNION {{[op |-> "hasv", p |-> i, t |-> t, av |-> av] : t \in {S(s.ps[i].px, "f"), S(s.ps[i].px, "f="), "w=1", "w", ""}, av \in {<<>>, <<"w">>, <<"">>, <<S(s.ps[i].px, "f"), "w">>, <<"w", "w">>}} : i \in Alive(s)}

\* every kind of option
Acts == {"Store", "StoreTrue", "StoreFalse", "Append", "Count"}
Types == {"Bool", "Int", "Long", "Float", "Double", "Choice", "String"}
TypeOf(t) == CASE t = "Choice" -> [ty |-> t, ch |-> <<"1", "work">>]     \* choices alone make the type
               [] t = "ch3" -> [ch |-> <<"1", "work", "2">>] [] t = "ch1" -> [ch |-> <<"1">>] [] t = "none" -> <<>> [] OTHER -> [ty |-> t]
Kinds(nm, dst, A, T, D, E) == UNION {{[act |-> a, dest |-> dst] @@ TypeOf(t)
    @@ (IF d = "" THEN <<>> ELSE [def |-> d]) @@ (IF e = "" THEN <<>> ELSE [env |-> e]) : t \in T, d \in D, e \in E} : a \in A}
Two(px) == <<S(px, "x"), L(px, "xx")>>
Occ(px, k) == CASE k = 0 -> <<>> [] k = 1 -> <<S(px, "x")>> [] k = 2 -> <<S(px, "x"), "2">> [] k = 3 -> <<L(px, "xx=3"), S(px, "x=work")>> [] k = 4 -> <<S(px, "x"), S(px, "x"), S(px, "x")>> [] OTHER -> <<S(px, "x"), "">>
Envs0 == {[op |-> "env", n |-> "VF_A", t |-> t] : t \in {"5", ""}} \cup {[op |-> "env", n |-> "VF_B", t |-> "9"], [op |-> "env", n |-> "VF_A"]}
MoreEnv == {[op |-> "env", n |-> n, t |-> t] : n \in {"VF_A", "VF_B", "VF_MODE"}, t \in {"1", "wait", "x", "", "2,3"}} \cup {[op |-> "env", n |-> n] : n \in {"VF_A", "VF_B", "VF_MODE"}}
AddKinds(s) == LET px == s.ps[1].px IN {Add(1, "two", Two(px), k) : k \in Kinds(Two(px), "k1", Acts, Types \cup {"ch3"}, {"", "1", "x"}, {"", "VF_A"})}
Shares(s) == LET px == s.ps[1].px IN {Add(1, "one", <<S(px, "y")>>, k) : k \in Kinds(<<>>, "k1", {"Store", "StoreFalse"}, {"Bool", "Int"}, {"", "2"}, {"", "VF_B"})}
Occs(s) == LET px == s.ps[1].px IN {Par(1, Occ(px, k)) : k \in 0..5}
OccsY(s) == LET px == s.ps[1].px IN {Par(1, a) : a \in {<<>>, <<S(px, "y")>>, <<S(px, "x"), "2">>, <<S(px, "y=1"), S(px, "x")>>, <<S(px, "x"), S(px, "y"), "3">>}}
Vals == {"", "0", "1", "x", "true", "007", "12ab", " 4", "-3", "+5", "2", "2147483647", "2147483648", "-2147483649", "9223372036854775808", "99999999999999999999", "-9223372036854775809", "2.5", "1e2", ".5", "-.25x", "3.", "0.10", "10.0", "1,2", ",", "a, b", " , ", "work", "work,1,zz", "1,zz,work", "1000000", " 1 , work ", "\t2 ,", " x y "}
NumFloat(t) == FloatText(t) # "?" /\ \A i \in 1..Len(Pieces(t)) : FloatText(Pieces(t)[i]) # "?"
Procs == UNION {{[op |-> "proc", names |-> <<"--pp">>, t |-> t, ds |-> <<"k1", "k2">>] @@ k : k \in {x \in Kinds(<<>>, "k1", Acts \cup {"Help", "Version", "Null"}, Types \cup {"ch3", "ch1"}, {""}, {""}) : Get(x, "ty", "") \in {"Float", "Double"} => NumFloat(t)}} : t \in Vals}

\* declarations made up at random, and command lines made from the names a parser has
One(S0) == RandomSubset(1, S0)
RndVals == {"", "0", "1", "x", "2.5", "007", " 4 ", "1,2", " 1 , work ", ",,", "work", "10.0", "2", "a=b"}
RndNames(px) == {S(px, "a"), S(px, "b"), S(px, "abc"), S(px, "a-b"), L(px, "d"), L(px, "ddd"), L(px, "e-f"), L(px, "aa"), px, L(px, "")}
Defs == {<<>>, <<>>} \cup {[def |-> t] : t \in {"1", "x", "work", "1,2", "2.5"}} \cup {[def |-> t, dk |-> "i"] : t \in {"7", "-3", "0"}} \cup {[def |-> "2.500000", dk |-> "d"]}
        \cup {[def |-> t, dk |-> "b"] : t \in {"0", "1"}} \cup {[def |-> t, dk |-> "s"] : t \in {"1", "", "work"}}
RndAdd(s, i, px) ==
  UNION {UNION {UNION {UNION {{LET form == IF Len(ns) = 1 THEN "one" ELSE IF Len(ns) = 2 /\ il THEN "two" ELSE "il"
                                   act == [act |-> a]
                               IN Add(i, form, ns, act @@ (IF a = "Count" THEN [dest |-> "kc", ty |-> "Bool"] ELSE ty @@ dest @@ def) @@ env)
      : def \in One(Defs), env \in One({<<>>, [env |-> "VF_A"], [env |-> "VF_B"]})}
      : ty \in One({TypeOf(t) : t \in Types \cup {"ch3", "ch1", "none"}}), il \in One(BOOLEAN)}
      : dest \in One({<<>>, [dest |-> "k1"], [dest |-> "k2"]} \ (IF \E n \in {ns[j] : j \in 1..Len(ns)} : Len(n) > 2 /\ Starts(n, Lp(s.ps[i])) THEN {} ELSE IF RandomElement(1..12) = 1 THEN {} ELSE {<<>>}))}
      : a \in One(Acts)} : ns \in UNION {{<<x>>, <<x, y>>, <<y, x, z>>} : x \in One(RndNames(px)), y \in One(RndNames(px)), z \in One(RndNames(px))}}
RndAdds(s) == UNION {RndAdd(s, i, s.ps[i].px) : i \in Alive(s)}
Tok(s, i) == LET ns == DOMAIN s.ps[i].nm IN
   One(IF ns = {} THEN {"w"} ELSE ns) \cup One(RndVals) \cup (IF ns = {} THEN {} ELSE {n \o "=" \o v : n \in One(ns), v \in One(RndVals)}) \cup One({"-zz", "w", "+a", "--", "-"})
RECURSIVE RndLine(_, _, _)
RndLine(s, i, n) == IF n = 0 THEN <<>> ELSE Append(RndLine(s, i, n - 1), CHOOSE t \in One(Tok(s, i)) : TRUE)
RndParses(s) == UNION {{Par(i, RndLine(s, i, n)) : n \in One(0..7)} : i \in Alive(s)}

\* names
Pool(px) == {S(px, "a"), S(px, "b"), L(px, "aa"), L(px, "bb")}
NameSets(px) == {<<n>> : n \in Pool(px)} \cup {<<S(px, "a"), L(px, "aa")>>, <<S(px, "b"), L(px, "aa")>>, <<L(px, "bb"), S(px, "a")>>, <<S(px, "a"), S(px, "b"), L(px, "bb")>>, <<S(px, "c"), L(px, "cc")>>, <<L(px, "cc"), L(px, "aa")>>}
BadNames(px) == {<<>>, <<"x">>, <<"">>, <<S(px, "c"), "x">>, <<S(px, "c"), S(px, "c")>>, <<IF px = "+" THEN "-c" ELSE "+c">>, <<px>>, <<S(px, "h"), L(px, "halt")>>, <<L(px, "help")>>, <<L(px, "")>>, <<S(px, "v"), L(px, "vv")>>}
Form(ns) == IF Len(ns) = 1 THEN "one" ELSE IF Len(ns) = 2 THEN "two" ELSE "il"
Deco(ns) == {[act |-> "StoreTrue", ty |-> "Bool", dest |-> "k" \o ToString(Min(Len(ns), 2))]}
Adds1(s) == UNION {UNION {{Add(i, f, ns, d) : f \in {Form(ns), "il"}, d \in Deco(ns)} : ns \in NameSets(s.ps[i].px)} : i \in Alive(s)}
Adds2(s) == UNION {UNION {{Add(i, Form(ns), ns, d) : d \in {[act |-> "Store", ty |-> "Bool"], [dest |-> "k1"], [act |-> "Store"], [act |-> "Store", ch |-> <<"a">>, ty |-> "Int", dest |-> "k2"]}} : ns \in {<<S(s.ps[i].px, "a"), L(s.ps[i].px, "aa")>>, <<S(s.ps[i].px, "c")>>}}
            \cup UNION {{Add(i, Form(ns), ns, d) : d \in Deco(ns)} : ns \in BadNames(s.ps[i].px)} : i \in Alive(s)}
NameParse(s) == UNION {LET px == s.ps[i].px IN {Par(i, a) : a \in {<<S(px, "a")>>, <<S(px, "b"), L(px, "aa")>>, <<L(px, "bb"), L(px, "cc"), S(px, "c")>>, <<S(px, "h"), px, L(px, "")>>, <<"x", "-a", "--aa", "+a", "++aa">>}} : i \in Alive(s)}
ETypes(s) == UNION {{[op |-> "etype", p |-> i, t |-> t] : t \in {"", "-", "--", "---", "-a", "--a", "+", "+a", "++a", "a", "a-", "$a", "$$a", "%%a", "-+a", "+-a"}} : i \in Alive(s)}
News(s) == IF Gone(s) = {} THEN {} ELSE LET i == Fst(Gone(s)) IN
  {[op |-> "new", p |-> i, k |-> "d"]} \cup {[op |-> "new", p |-> i, k |-> "h", h |-> h] : h \in {0, 1}}
  \cup {[op |-> "new", p |-> i, k |-> "px", px |-> x] : x \in {"-", "+", "#", "$", "&", "%", "/", "a", "!"}}
  \cup {[op |-> "new", p |-> i, k |-> "pxh", px |-> x, h |-> h] : x \in {"-", "+", "%", "/"}, h \in {0, 1}}
Setup(s) == UNION {LET m == Mixed(i, s.ps[i].px) \o Small2(i, s.ps[i].px) IN {m[k] : k \in 1..Len(m)} : i \in Alive(s)}
Copies(s) == IF Gone(s) = {} THEN {} ELSE LET i == Fst(Gone(s)) IN {[op |-> o, p |-> i, q |-> q] : o \in {"copy", "move"}, q \in Alive(s)}
Drops(s) == {[op |-> "drop", p |-> i] : i \in Alive(s)}
Confs(s) == UNION {{[op |-> "conf", p |-> i, k |-> k, t |-> t] : k \in {"program", "usage", "version"}, t \in {"My Tool 2", ""}} \cup {[op |-> "auto", p |-> i, k |-> k, t |-> t] : k \in {"usage", "help", "version"}, t \in {"9.1", ""}} : i \in Alive(s)}
Texts(s) == UNION {{[op |-> "text", p |-> i, k |-> k, pr |-> pr] : k \in {"usage", "help", "version"}, pr \in {0, 1}} : i \in Alive(s)}
FmtT == {[op |-> "fmtt", ty |-> t, w |-> w] : t \in Types, w \in {-1, 0, 3, 12}}

Vs == {Val("b", "1"), Val("i", "5"), Val("l", "7"), Val("f", "2.5"), Val("d", "0.25"), Val("s", "x y")}
Keys == {"k1", "k2"}
StoreOps1 == {[op |-> "vset", d |-> k, v |-> v] : k \in Keys, v \in Vs} \cup {[op |-> "vapp", d |-> k, v |-> v] : k \in Keys, v \in Vs}
   \cup {[op |-> "vappl", d |-> k, l |-> l] : k \in {"k1"}, l \in {<<>>, <<Val("i", "1"), Val("i", "2")>>, <<Val("s", "p"), Val("i", "3")>>}} \cup {[op |-> "vinc", d |-> k] : k \in Keys}
   \cup {[op |-> "vmove"], [op |-> "vnew"]}
StoreCalls == {o @@ [ds |-> <<"k1", "k2">>] : o \in StoreOps1}

Gp(s, n) ==
  CASE n = "Parses" -> Parses(s) [] n = "Hasv" -> Hasv(s) [] n = "AddKinds" -> AddKinds(s) [] n = "Shares" -> Shares(s) [] n = "Occs" -> Occs(s)
    [] n = "OccsY" -> OccsY(s) [] n = "Envs" -> IF Big THEN MoreEnv ELSE Envs0 [] n = "Procs" -> Procs [] n = "Adds1" -> Adds1(s) [] n = "Adds2" -> Adds2(s)
    [] n = "NameParse" -> NameParse(s) [] n = "ETypes" -> ETypes(s) [] n = "News" -> News(s) [] n = "Setup" -> Setup(s) [] n = "Copies" -> Copies(s)
    [] n = "Drops" -> Drops(s) [] n = "Confs" -> Confs(s) [] n = "Texts" -> Texts(s) [] n = "FmtT" -> FmtT [] n = "StoreCalls" -> StoreCalls
    [] n = "RndAdds" -> RndAdds(s) [] n = "RndParses" -> RndParses(s)
Wild == <<"Parses", "Parses", "Parses", "Envs", "Setup", "Setup", "Adds1", "Adds2", "NameParse", "News", "Copies", "Drops", "Confs", "Texts", "Texts", "ETypes", "Hasv", "Procs", "FmtT">>
Groups(s, d) ==
  CASE Profile = "RND" -> IF d < 5 THEN <<"RndAdds">> ELSE <<"RndParses", "RndParses", "RndParses", "RndParses", "Envs", "RndAdds", "Texts", "Copies", "Confs">>
    [] Profile = "P01" -> IF Big THEN <<"Parses", "Parses", "Parses", "Envs", "Setup", "Hasv", "Confs">> ELSE IF d = 0 THEN <<"Parses", "Hasv">> ELSE <<>>
    [] Profile = "P02" -> IF Big THEN <<"Parses", "Parses", "Envs", "Envs", "Setup", "AddKinds", "Shares", "Occs", "OccsY">>
                          ELSE CASE d = 0 -> <<"AddKinds">> [] d = 1 -> <<IF s.env = <<>> THEN "Envs" ELSE "Shares">> [] d = 2 -> <<"Occs", "OccsY">> [] OTHER -> <<>>
    [] Profile = "P03" -> IF Big THEN <<"StoreCalls", "StoreCalls", "StoreCalls", "Procs", "Parses", "Setup", "Envs">> ELSE IF d = 0 THEN <<"Procs", "StoreCalls">> ELSE <<"StoreCalls">>
    [] Profile = "P04" -> IF Big THEN Wild ELSE CASE d = 0 -> <<"Adds1", "Adds2", "ETypes">> [] d = 1 -> <<"Adds1", "Adds2", "NameParse">> [] OTHER -> <<"NameParse">>
    [] Profile = "P05" -> IF Big THEN <<"Parses", "Parses", "Texts", "Texts", "Confs", "Setup", "Envs", "FmtT", "Adds2">> ELSE <<"Parses", "Texts", "Confs", "FmtT">>
    [] Profile = "P06" -> IF Big THEN Wild \o <<"Copies", "Copies", "Copies", "Drops">> ELSE <<"Copies", "Drops", "Parses", "Adds1", "Texts">>

Skip == [op |-> "skip"]
Keep(s, o) == o.op # "skip" => Legal(s, o)
Some(n, S0) == IF S0 = {} \/ Big THEN S0 ELSE RandomSubset(Min(n, Cardinality(S0)), S0)
\* some groups are too large to be combined in full
Part(s, n, d) == LET g == Gp(s, n) IN
  CASE Profile = "P06" /\ n = "Adds1" -> Some(2, g) [] Profile = "P06" /\ n = "Texts" -> Some(2, g) [] Profile = "P06" /\ n = "Parses" -> Some(3, g)
    [] Profile = "P05" /\ d > 1 /\ n \in {"FmtT"} -> {} [] Profile = "P05" /\ d > 1 -> Some(4, g) [] Profile = "P02" /\ d > 0 -> Some(IF d = 1 THEN 3 ELSE 2, g)
    [] Profile = "P03" /\ d > 1 -> Some(4, g)
    [] Profile = "P04" /\ d = 1 /\ n # "NameParse" -> Some(6, g) [] OTHER -> g
Cands(s, d) == IF Big THEN UNION {LET g == Gp(s, Groups(s, d)[i]) IN IF g = {} THEN {Skip} ELSE RandomSubset(1, {o \in g : Legal(s, o)} \cup {Skip}) : i \in RandomSubset(1, 1..Len(Groups(s, d)))}
               ELSE UNION {{o \in Part(s, Groups(s, d)[i], d) : Legal(s, o)} : i \in 1..Len(Groups(s, d))}
Begin == [op |-> "begin", np |-> NP]
New(k, px, h) == <<[op |-> "new", p |-> 1, k |-> k] @@ (IF k \in {"px", "pxh"} THEN [px |-> px] ELSE <<>>) @@ (IF k \in {"h", "pxh"} THEN [h |-> h] ELSE <<>>)>>
Prog == [op |-> "conf", p |-> 1, k |-> "program", t |-> "tool"]
Starts0 ==
  CASE Profile = "RND" -> {New("d", "-", 0), New("h", "-", 1), New("px", "+", 0), New("pxh", "%", 1)}
    [] Big -> {New("d", "-", 0), New("d", "-", 0) \o Mixed(1, "-"), New("px", "+", 0) \o Mixed(1, "+"), New("pxh", "$", 1) \o Mixed(1, "$") \o Small2(1, "$")}
    [] Profile = "P01" -> {New("d", "-", 0) \o Mixed(1, "-"), New("px", "+", 0) \o Mixed(1, "+")}
    [] Profile = "P02" -> {New("d", "-", 0), New("d", "-", 0) \o <<[op |-> "env", n |-> "VF_A", t |-> "5"]>>}
    [] Profile = "P03" -> {<<>>}
    [] Profile = "P04" -> {New("d", "-", 0), New("h", "-", 1), New("px", "+", 0), New("pxh", "+", 1), New("pxh", "-", 0), New("px", "/", 0), New("pxh", "/", 0), New("pxh", "%", 1)}
    [] Profile = "P05" -> {New("d", "-", 0), New("d", "-", 0) \o Mixed(1, "-"), New("px", "#", 0) \o Small2(1, "#") \o <<Prog>>}
    [] OTHER -> {New("d", "-", 0) \o Mixed(1, "-"), New("pxh", "&", 1) \o Small2(1, "&")}
RECURSIVE Run(_, _)
Run(s, os) == IF os = <<>> THEN s ELSE Run(Post(s, Head(os)), Tail(os))
Init == \E c \in Starts0 : st = Run(InitSt(Begin), c) /\ hist = <<Begin>> \o c /\ d0 = Len(c) + 1

Emit(h) == IF Mode = "bfs" THEN PrintT("B " \o ToJson(h)) ELSE IF Len(h) = Depth + d0 THEN PrintT("B " \o ToJson(h)) ELSE TRUE
Step(o) ==
  LET e == Ref(st, o) IN
  /\ o.op # "skip" => Assert(Broken(st, e) = {}, <<"reference violates", Broken(st, e), e, st>>)
  /\ st' = Post(st, o)
  /\ hist' = Append(hist, o)
  /\ d0' = d0
  /\ Emit(hist')
Next == /\ Len(hist) < Depth + d0
        /\ \E o \in Cands(st, Len(hist) - d0) : Step(o)
Spec == Init /\ [][Next]_<<st, hist, d0>>
Inv == StateOK(st)
=============================================================================
