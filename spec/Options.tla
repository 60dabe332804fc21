------------------------------- MODULE Options -------------------------------
(* Command line parsing (optparse/optparse.hpp, optparse.cc).                *)
(* A state holds NP parsers, NS value stores and the environment; every      *)
(* operation of the public interface is one event.  The model follows the    *)
(* calls alone, so an event is judged against what the calls before it imply.*)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT Props

B(b) == IF b THEN 1 ELSE 0
Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Eager(_, _)
Eager(f(_), n) == IF n = 0 THEN <<>> ELSE Append(Eager(f, n - 1), f(n))

\* ------------------------------------------------------------------- texts
At(s, i) == SubSeq(s, i, i)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
Starts(s, p) == Len(s) >= Len(p) /\ Take(s, Len(p)) = p
RECURSIVE FindC(_, _, _)           \* first position of character c from i on, 0 if none
FindC(s, c, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = c THEN i ELSE FindC(s, c, i + 1)
Spaces == {" ", "\t", "\n", "\r", "\f"}
RECURSIVE LTrim(_)
LTrim(s) == IF s # "" /\ At(s, 1) \in Spaces THEN LTrim(Drop(s, 1)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # "" /\ At(s, Len(s)) \in Spaces THEN RTrim(Take(s, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))
RECURSIVE Blank(_)
Blank(n) == IF n <= 0 THEN "" ELSE " " \o Blank(n - 1)
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Up1(c) == LET i == FindC(Lower, c, 1) IN IF i = 0 THEN c ELSE At(Upper, i)
RECURSIVE UpperOf(_)
UpperOf(s) == IF s = "" THEN "" ELSE Up1(At(s, 1)) \o UpperOf(Drop(s, 1))
\* pieces between commas, empty ones left out, the others trimmed
RECURSIVE Pieces(_)
Pieces(s) == LET c == FindC(s, ",", 1)
                 h == IF c = 0 THEN s ELSE Take(s, c - 1)
                 r == IF c = 0 THEN <<>> ELSE Pieces(Drop(s, c))
             IN IF h = "" THEN r ELSE <<Trim(h)>> \o r

\* ----------------------------------------------------------------- numbers
DigitChars == "0123456789"
Dig(c) == FindC(DigitChars, c, 1) - 1       \* -1: no digit
RECURSIVE Digits(_)
Digits(s) == IF s # "" /\ Dig(At(s, 1)) >= 0 THEN At(s, 1) \o Digits(Drop(s, 1)) ELSE ""
RECURSIVE NoZero(_)
NoZero(s) == IF s # "" /\ At(s, 1) = "0" THEN NoZero(Drop(s, 1)) ELSE s
RECURSIVE Above(_, _)                       \* same length: a > b
Above(a, b) == IF a = "" THEN FALSE ELSE IF Dig(At(a, 1)) # Dig(At(b, 1)) THEN Dig(At(a, 1)) > Dig(At(b, 1)) ELSE Above(Drop(a, 1), Drop(b, 1))
Greater(a, b) == IF Len(a) # Len(b) THEN Len(a) > Len(b) ELSE Above(a, b)
\* the number at the start of a text, brought into range; "0" when there is none
IntText(txt, hi, lo) ==
  LET s == LTrim(txt)
      neg == s # "" /\ At(s, 1) = "-"
      u == IF s # "" /\ At(s, 1) \in {"-", "+"} THEN Drop(s, 1) ELSE s
      d == NoZero(Digits(u))
      lim == IF neg THEN lo ELSE hi
      m == IF Greater(d, lim) THEN lim ELSE d
  IN IF m = "" THEN "0" ELSE IF neg THEN "-" \o m ELSE m
Int32(t) == IntText(t, "2147483647", "2147483648")
Int64(t) == IntText(t, "9223372036854775807", "9223372036854775808")
BoolText(t) == IF Int64(t) = "0" THEN "0" ELSE "1"
\* the decimal number at the start of a text, as it is printed back ("?" when it is not a short plain number)
RECURSIVE NoTail(_)
NoTail(s) == IF s # "" /\ At(s, Len(s)) = "0" THEN NoTail(Take(s, Len(s) - 1)) ELSE s
FloatText(txt) ==
  LET s == LTrim(txt)
      neg == s # "" /\ At(s, 1) = "-"
      u == IF s # "" /\ At(s, 1) \in {"-", "+"} THEN Drop(s, 1) ELSE s
      d == Digits(u)
      r == Drop(u, Len(d))
      f == IF r # "" /\ At(r, 1) = "." THEN Digits(Drop(r, 1)) ELSE ""
      x == Drop(r, IF r # "" /\ At(r, 1) = "." THEN 1 + Len(f) ELSE 0)
      i == NoZero(d)
      t == NoTail(f)
  IN IF d = "" /\ f = "" THEN "0"
     ELSE IF s = "1e2" THEN "100"
     ELSE IF x # "" /\ At(x, 1) \in {"e", "E", "+", "-", "."} THEN "?"
     ELSE IF Len(i \o t) > 7 \/ (i \o t = "" /\ neg) THEN "?"
     ELSE (IF neg THEN "-" ELSE "") \o (IF i = "" THEN "0" ELSE i) \o (IF t = "" THEN "" ELSE "." \o t)

\* ------------------------------------------------------------------ options
None == <<>>
Val(t, v) == [t |-> t, v |-> v]
\* the value a text stands for: a sequence of at most one value
Parsed(o, t) ==
  CASE o.ty = "Bool" -> <<Val("b", BoolText(t))>> [] o.ty = "Int" -> <<Val("i", Int32(t))>>
    [] o.ty = "Long" -> <<Val("l", Int64(t))>> [] o.ty = "Float" -> <<Val("f", FloatText(t))>>
    [] o.ty = "Double" -> <<Val("d", FloatText(t))>>
    [] o.ty = "Choice" -> IF t \in o.ch THEN <<Val("s", t)>> ELSE None
    [] OTHER -> <<Val("s", t)>>

\* a store: values, lists, what was set, and whether an exception ended the work
Store0 == [v |-> <<>>, ls |-> <<>>, us |-> {}, x |-> 0]
Put(f, k, v) == [x \in {k} \cup DOMAIN f |-> IF x = k THEN v ELSE f[x]]
SetV(s, k, v) == [s EXCEPT !.v = Put(@, k, v), !.us = @ \cup {k}]
AddL(s, k, vs) == [s EXCEPT !.ls = Put(@, k, Get(@, k, <<>>) \o vs), !.us = @ \cup {k}]
\* a count is an int: counting on any other kind of value ends with an exception (5)
NumOf(t) == CHOOSE n \in 0..99 : ToString(n) = t
Inc(s, k) == IF Has(s.v, k) /\ s.v[k].t # "i" THEN [s EXCEPT !.x = 5]
             ELSE SetV(s, k, Val("i", IF Has(s.v, k) THEN ToString(NumOf(s.v[k].v) + 1) ELSE "1"))

RECURSIVE Append2(_, _, _)
Append2(o, s, ts) ==   \* the pieces in order, up to the first that is not acceptable
  IF ts = <<>> THEN s ELSE LET p == Parsed(o, Head(ts)) IN IF p = None THEN s ELSE Append2(o, AddL(s, o.dest, p), Tail(ts))
\* one value given to an option
Process(o, s, t) ==
  LET p == Parsed(o, t) IN
  CASE o.act = "Store" -> IF p = None THEN s ELSE SetV(s, o.dest, p[1])
    [] o.act \in {"StoreTrue", "StoreFalse"} -> IF t = "" THEN SetV(s, o.dest, Val("b", IF o.act = "StoreTrue" THEN "1" ELSE "0"))
                                                ELSE IF p = None THEN s ELSE SetV(s, o.dest, p[1])
    [] o.act = "Append" -> Append2(o, s, IF FindC(t, ",", 1) = 0 THEN <<t>> ELSE Pieces(t))
    [] o.act = "Count" -> Inc(s, o.dest)
    [] OTHER -> [s EXCEPT !.x = 2]
\* whether the value was acceptable
Accepted(o, t) ==
  CASE o.act = "Store" -> Parsed(o, t) # None
    [] o.act \in {"StoreTrue", "StoreFalse"} -> t = "" \/ Parsed(o, t) # None
    [] o.act = "Append" -> \A p \in {(IF FindC(t, ",", 1) = 0 THEN <<t>> ELSE Pieces(t))[i] : i \in 1..Len(IF FindC(t, ",", 1) = 0 THEN <<t>> ELSE Pieces(t))} : Parsed(o, p) # None
    [] OTHER -> TRUE

\* ------------------------------------------------------------------ parsers
Lp(p) == p.px \o p.px
NameType(p, n) == IF Len(n) > 2 /\ Starts(n, Lp(p)) THEN "long" ELSE IF n # "" /\ At(n, 1) = p.px THEN "short" ELSE "bad"
Opt0 == [names |-> <<>>, act |-> "Null", ty |-> "String", dest |-> "", def |-> "", ch |-> {}, help |-> "", env |-> ""]
FromOp(o) == [names |-> o.names, act |-> Get(o, "act", "Null"), ty |-> Get(o, "ty", IF Has(o, "ch") THEN "Choice" ELSE "String"), dest |-> Get(o, "dest", ""),
              def |-> Get(o, "def", ""), ch |-> IF Has(o, "ch") THEN {o.ch[i] : i \in 1..Len(o.ch)} ELSE {}, help |-> Get(o, "help", ""), env |-> Get(o, "env", "")]
Free0(p, n) == ~Has(p.nm, n)
\* names may be registered
Clean(p, ns) == /\ ns # <<>>
                /\ \A i \in 1..Len(ns) : NameType(p, ns[i]) # "bad"
                /\ p.h = 0 => \A i \in 1..Len(ns) : Free0(p, ns[i]) /\ \A j \in 1..Len(ns) : i # j => ns[i] # ns[j]
Register(p, o) == [p EXCEPT !.opts = Append(@, o),
                            !.nm = [x \in DOMAIN @ \cup {o.names[i] : i \in 1..Len(o.names)} |-> IF \E i \in 1..Len(o.names) : o.names[i] = x THEN Len(p.opts) + 1 ELSE @[x]]]
Auto(p, ch, nm, help) == IF Free0(p, p.px \o ch) /\ Free0(p, Lp(p) \o nm)
                         THEN Register(p, [Opt0 EXCEPT !.names = <<p.px \o ch, Lp(p) \o nm>>, !.dest = nm, !.act = "StoreTrue", !.ty = "Bool", !.help = help]) ELSE p
AutoUsage(p, m) == Auto(p, "u", "usage", IF m = "" THEN "show usage of the " \o p.prog ELSE m)
AutoHelp(p, m) == Auto(p, "h", "help", IF m = "" THEN "show the help of the " \o p.prog ELSE m)
AutoVersion(p) == Auto(p, "v", "version", "show version of the " \o p.prog)
FirstLong(p, ns) == LET S == {i \in 1..Len(ns) : NameType(p, ns[i]) = "long"} IN IF S = {} THEN "" ELSE Drop(ns[CHOOSE i \in S : \A j \in S : i <= j], 2)
Filled(p, o) == IF o.dest = "" THEN [o EXCEPT !.dest = FirstLong(p, o.names)] ELSE o
Incomplete(p, o) == LET f == Filled(p, o) IN f.act = "Null" \/ f.dest = "" \/ (f.ty # "Choice" /\ f.ch # {})
BadOpts(p) == {i \in 1..Len(p.opts) : Incomplete(p, p.opts[i])}
OptOf(p, n) == IF Has(p.nm, n) THEN p.nm[n] ELSE 0

\* ------------------------------------------------------------------ parsing
IsValue(p, t) == ~Starts(t, p.px)
HasValue(p, cur, rest) == FindC(cur, "=", 1) > 0 \/ (rest # <<>> /\ IsValue(p, rest[1]))
RECURSIVE Scan(_, _, _, _), More(_, _, _, _, _)
\* a: arguments after the program name; s: store with inv, the positions of invalid arguments
Scan(p, a, i, s) ==
  IF s.st.x > 0 \/ i > Len(a) THEN s
  ELSE LET f == a[i]
           eq == FindC(f, "=", 1)
           k == OptOf(p, Trim(IF eq = 0 THEN f ELSE Take(f, eq - 1)))
           v == IF eq = 0 THEN "" ELSE Drop(f, eq)
           bad == [s EXCEPT !.inv = Append(@, i)]
       IN IF IsValue(p, f) \/ k = 0 THEN Scan(p, a, i + 1, bad)
          ELSE LET o == p.opts[k] IN
               IF ~HasValue(p, f, SubSeq(a, i + 1, Len(a)))
               THEN IF o.ty = "Bool" THEN Scan(p, a, i + 1, [s EXCEPT !.st = Process(o, @, "")]) ELSE [s EXCEPT !.st.x = 2]
               ELSE IF v = "" THEN IF i = Len(a) THEN Scan(p, a, i + 1, bad) ELSE More(p, a, i + 2, o, [s EXCEPT !.st = Process(o, @, a[i + 1])])
               ELSE More(p, a, i + 1, o, [s EXCEPT !.st = Process(o, @, v)])
\* the bare words after an option's value: further values of a list, otherwise invalid
More(p, a, i, o, s) ==
  IF s.st.x > 0 \/ i > Len(a) \/ ~IsValue(p, a[i]) THEN Scan(p, a, i, s)
  ELSE More(p, a, i + 1, o, IF o.act = "Append" THEN [s EXCEPT !.st = Process(o, @, a[i])] ELSE [s EXCEPT !.inv = Append(@, i)])
RECURSIVE Defaults(_, _, _)
Defaults(p, i, s) == IF s.x > 0 \/ i > Len(p.opts) THEN s
                     ELSE LET o == p.opts[i] IN Defaults(p, i + 1, IF o.def # "" /\ o.dest \notin s.us THEN Process(o, s, o.def) ELSE s)
RECURSIVE Envs(_, _, _, _)
Envs(p, env, i, s) == IF s.x > 0 \/ i > Len(p.opts) THEN s
                      ELSE LET o == p.opts[i] IN Envs(p, env, i + 1, IF o.env # "" /\ o.dest \notin s.us /\ Has(env, o.env) THEN Process(o, s, env[o.env]) ELSE s)
\* the parser a parse works with, or the exception that prevents it
Ready(p, o) == LET q == IF p.prog = "" THEN [p EXCEPT !.prog = o.a0] ELSE p
                   bad == BadOpts(q)
                   m == IF bad = {} THEN Len(q.opts) ELSE CHOOSE i \in bad : \A j \in bad : i <= j
                   r == [q EXCEPT !.opts = Eager(LAMBDA i : IF i <= m THEN Filled(q, q.opts[i]) ELSE q.opts[i], Len(q.opts))]
               IN IF bad # {} THEN [r EXCEPT !.pd = 0] ELSE [AutoVersion(AutoHelp(AutoUsage(r, ""), "")) EXCEPT !.pd = 1]
\* result of parse_args: the store, the invalid positions, the parser afterwards
Parse(st, o) ==
  LET p == st.ps[o.p] IN
  IF Get(o, "zero", 0) = 1 THEN [p |-> p, st |-> [Store0 EXCEPT !.x = 2], inv |-> <<>>]
  ELSE LET q == Ready(p, o) IN
       IF BadOpts(p) # {} THEN [p |-> q, st |-> [Store0 EXCEPT !.x = 2], inv |-> <<>>]
       ELSE LET s == Scan(q, o.av, 1, [st |-> Store0, inv |-> <<>>])
                d == Envs(q, st.env, 1, Defaults(q, 1, s.st))
            IN [p |-> [q EXCEPT !.pd = B(d.x = 0)], st |-> d, inv |-> s.inv]

\* -------------------------------------------------------------------- texts
Usage(p) ==
  IF p.usage # "" THEN p.usage
  ELSE LET RECURSIVE Each(_)
           Each(i) == IF i > Len(p.opts) THEN "\n"
                      ELSE LET o == p.opts[i] IN " [" \o o.names[1] \o (IF o.ty = "Bool" THEN " " \o UpperOf(o.dest) ELSE "") \o "]" \o Each(i + 1)
       IN "usage: " \o p.prog \o Each(1)
TypeText(t) == CASE t = "Bool" -> "bool" [] t = "Int" -> "int" [] t = "Long" -> "long" [] t = "Float" -> "float" [] t = "Double" -> "double" [] t = "Choice" -> "choice" [] OTHER -> "string"
RECURSIVE Joined(_)
Joined(ns) == IF Len(ns) = 1 THEN ns[1] ELSE ns[1] \o ", " \o Joined(Tail(ns))
HelpText(p) ==
  LET line(i) == Joined(p.opts[i].names) \o "=<" \o TypeText(p.opts[i].ty) \o ">"
      RECURSIVE Width(_)
      Width(i) == IF i = 0 THEN 0 ELSE Max(Width(i - 1), Len(line(i)))
      RECURSIVE Each(_)
      Each(i) == IF i > Len(p.opts) THEN "" ELSE "  " \o line(i) \o Blank(Width(Len(p.opts)) + 1 - Len(line(i))) \o p.opts[i].help \o "\n" \o Each(i + 1)
  IN Usage(p) \o " \n options: \n" \o Each(1)
VersionText(p) == IF p.ver # "" THEN p.ver ELSE p.prog \o " : 0.0.0"
TextOf(p, k) == CASE k = "usage" -> Usage(p) [] k = "help" -> HelpText(p) [] OTHER -> VersionText(p)

\* -------------------------------------------------------------------- state
Parser0 == [l |-> 0, px |-> "-", h |-> 0, prog |-> "", usage |-> "", ver |-> "", opts |-> <<>>, nm |-> <<>>, pd |-> 0, inv |-> <<>>]
InitSt(e) == [ps |-> [i \in 1..e.np |-> Parser0], env |-> <<>>, vs |-> Store0]
Prefixes == {"-", "+", "#", "$", "&", "%"}

ParserOps == {"new", "copy", "move", "drop", "add", "auto", "conf", "parse", "text", "etype", "hasv"}
StoreOps == {"vset", "vapp", "vappl", "vinc", "vmove", "vnew"}
NewPx(o) == IF o.k \in {"px", "pxh"} THEN o.px ELSE "-"
\* what a parse comes to, computed once per event
Work(st, o) == IF o.op = "parse" THEN Parse(st, o) ELSE <<>>
ExcR(st, o, r) ==
  CASE o.op = "new" -> IF NewPx(o) \in Prefixes THEN 0 ELSE 2
    [] o.op = "add" -> IF Clean(st.ps[o.p], o.names) THEN 0 ELSE 2
    [] o.op = "parse" -> r.st.x
    [] o.op = "vinc" -> Inc(st.vs, o.d).x
    [] o.op = "proc" -> IF Process(FromOp(o), Store0, o.t).x > 0 THEN 2 ELSE 0
    [] o.op = "fmtt" -> IF Get(o, "w", 0) < 0 THEN 6 ELSE 0
    [] OTHER -> 0

\* a call within the rules
AliveP(st, i) == st.ps[i].l = 1
Legal(st, o) ==
  CASE o.op = "new" -> st.ps[o.p].l = 0
    [] o.op \in {"copy", "move"} -> st.ps[o.p].l = 0 /\ st.ps[o.q].l = 1
    [] o.op \in {"drop", "add", "auto", "conf", "parse", "text", "etype", "hasv"} -> AliveP(st, o.p)
    [] OTHER -> TRUE

NoX(s) == [s EXCEPT !.x = 0]
PostR(st, o, r) ==
  CASE o.op = "new" -> IF ExcR(st, o, r) > 0 THEN st ELSE [st EXCEPT !.ps[o.p] = [Parser0 EXCEPT !.l = 1, !.px = NewPx(o), !.h = IF o.k \in {"h", "pxh"} THEN o.h ELSE 0]]
    [] o.op = "copy" -> [st EXCEPT !.ps[o.p] = st.ps[o.q]]
    [] o.op = "move" -> [st EXCEPT !.ps[o.p] = st.ps[o.q], !.ps[o.q] = Parser0]     \* the driver also destroys the old one
    [] o.op = "drop" -> [st EXCEPT !.ps[o.p] = Parser0]
    [] o.op = "add" -> IF ExcR(st, o, r) > 0 THEN st ELSE [st EXCEPT !.ps[o.p] = Register(@, FromOp(o))]
    [] o.op = "auto" -> [st EXCEPT !.ps[o.p] = CASE o.k = "usage" -> AutoUsage(@, o.t) [] o.k = "help" -> AutoHelp(@, o.t) [] OTHER -> AutoVersion([@ EXCEPT !.ver = o.t])]
    [] o.op = "conf" -> [st EXCEPT !.ps[o.p] = CASE o.k = "program" -> [@ EXCEPT !.prog = o.t] [] o.k = "usage" -> [@ EXCEPT !.usage = o.t] [] OTHER -> [@ EXCEPT !.ver = o.t]]
    [] o.op = "parse" -> [st EXCEPT !.ps[o.p] = [r.p EXCEPT !.inv = IF Get(o, "zero", 0) = 1 THEN @ ELSE IF r.p.pd = 1 THEN Eager(LAMBDA i : o.av[r.inv[i]], Len(r.inv)) ELSE <<>>]]
    [] o.op = "env" -> [st EXCEPT !.env = IF Has(o, "t") THEN Put(@, o.n, o.t) ELSE [x \in DOMAIN @ \ {o.n} |-> @[x]]]
    [] o.op = "vset" -> [st EXCEPT !.vs = SetV(@, o.d, o.v)]
    [] o.op = "vapp" -> [st EXCEPT !.vs = AddL(@, o.d, <<o.v>>)]
    [] o.op = "vappl" -> [st EXCEPT !.vs = AddL(@, o.d, o.l)]
    [] o.op = "vinc" -> [st EXCEPT !.vs = NoX(Inc(@, o.d))]
    [] o.op = "vnew" -> [st EXCEPT !.vs = Store0]
    [] OTHER -> st
Post(st, o) == LET r == Work(st, o) IN PostR(st, o, r)

\* --------------------------------------------------------------- the events
\* how a store is reported: for every asked destination [d, u, v (sequence), l (sequence of sequences)]
Shown(s, ds) == Eager(LAMBDA i : [d |-> ds[i], u |-> B(ds[i] \in s.us), v |-> IF Has(s.v, ds[i]) THEN <<s.v[ds[i]]>> ELSE <<>>,
                                  l |-> IF Has(s.ls, ds[i]) THEN <<s.ls[ds[i]]>> ELSE <<>>], Len(ds))
Self(p) == [prog |-> p.prog, usage |-> p.usage, ver |-> p.ver] @@ IF p.pd = 1 THEN [inv |-> p.inv] ELSE <<>>
SelfAll(st) == Eager(LAMBDA i : IF st.ps[i].l = 1 THEN Self(st.ps[i]) ELSE [gone |-> 1], Len(st.ps))
Obs(st, o, r) ==
  LET x == ExcR(st, o, r) n == PostR(st, o, r) IN
  (IF o.op = "env" \/ o.op \in StoreOps \cup {"proc", "fmtt"} THEN <<>> ELSE [self |-> SelfAll(n)])
  @@ CASE o.op = "parse" -> IF x > 0 THEN <<>> ELSE
            [res |-> Shown(r.st, o.ds), inv |-> r.inv, inv2 |-> r.inv, rc |-> Len(r.inv) + 1, raw |-> <<0>> \o r.inv, tl |-> 1]
       [] o.op = "text" -> [txt |-> TextOf(st.ps[o.p], o.k)]
       [] o.op = "etype" -> [et |-> NameType(st.ps[o.p], o.t)]
       [] o.op = "hasv" -> [hv |-> B(HasValue(st.ps[o.p], o.t, o.av))]
       [] o.op \in StoreOps -> [res |-> Shown(n.vs, o.ds), tl |-> 1]
       [] o.op = "proc" -> IF x > 0 THEN <<>> ELSE [res |-> Shown(Process(FromOp(o), Store0, o.t), o.ds), ok |-> B(Accepted(FromOp(o), o.t)), tl |-> 1]
       [] o.op = "fmtt" -> IF x > 0 THEN <<>> ELSE [txt |-> LET t == TypeText(o.ty) IN t \o Blank(Get(o, "w", 0) - Len(t))]
       [] OTHER -> <<>>
Want(st, o) == LET r == Work(st, o) IN [exc |-> ExcR(st, o, r)] @@ Obs(st, o, r)
Ref(st, o) == Want(st, o) @@ o

\* ------------------------------------------------------------------ clauses
Same(e, w, f) == Has(w, f) => Has(e, f) /\ e[f] = w[f]
OK(w, e, fs) == e.exc = w.exc /\ \A f \in fs : Same(e, w, f)

\* every element consumed once or reported, in order
P01(w, e) == e.op \in {"parse", "hasv"} => OK(w, e, {"inv", "inv2", "rc", "raw", "res", "hv"})
\* where values come from
P02(w, e) == e.op = "parse" => OK(w, e, {"res"})
P03(w, e) == e.op \in {"parse", "proc"} \cup StoreOps => OK(w, e, {"res", "ok", "tl"})
SetOf(res) == {res[i].d : i \in {j \in 1..Len(res) : res[j].u = 1}}
P04(w, e) == /\ e.op \in {"new", "add", "auto", "etype"} => OK(w, e, {"et"})
             /\ e.op = "parse" => (OK(w, e, {"inv"}) /\ (e.exc = 0 => SetOf(e.res) = SetOf(w.res)))
P05(w, e) == e.op \in ParserOps \cup {"fmtt"} => OK(w, e, {"txt", "self", "res", "inv", "raw", "rc", "et"})
P06(w, e) == e.op \in {"copy", "move", "drop", "parse", "add", "auto", "text", "conf"} => OK(w, e, {"self", "res", "inv", "raw", "rc", "txt"})

Clause(p, st, e) ==
  IF e.op = "crash" THEN FALSE
  ELSE IF e.op \in {"skip", "end"} THEN (Has(e, "leak") => e.leak = 0)
  ELSE LET w == Want(st, e) IN
       CASE p = "P01" -> P01(w, e) [] p = "P02" -> P02(w, e) [] p = "P03" -> P03(w, e)
         [] p = "P04" -> P04(w, e) [] p = "P05" -> P05(w, e) [] p = "P06" -> P06(w, e)
Broken(st, e) == {p \in Props : ~Clause(p, st, e)}
Sane(st, e) == e.op \in {"skip", "end"} \/ (Legal(st, e) /\ e.exc = ExcR(st, e, Work(st, e)))
StateOK(st) == \A i \in DOMAIN st.ps : LET p == st.ps[i] IN
  /\ \A n \in DOMAIN p.nm : p.nm[n] \in 1..Len(p.opts) /\ \E k \in 1..Len(p.opts[p.nm[n]].names) : p.opts[p.nm[n]].names[k] = n
  /\ p.h = 0 => \A a, b \in 1..Len(p.opts) : a # b => {p.opts[a].names[k] : k \in 1..Len(p.opts[a].names)} \cap {p.opts[b].names[k] : k \in 1..Len(p.opts[b].names)} = {}
  /\ p.l = 0 => p.opts = <<>>
=============================================================================
