--------------------------------- MODULE Units ---------------------------------
(* Size literals and alignment arithmetic. Numbers go up to 2^64, so they are  *)
(* sequences of decimal digits here, most significant first.                   *)
EXTENDS Integers, Sequences, TLC
CONSTANT Props

Has(e, f) == f \in DOMAIN e
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ Head(d) = 0 THEN Strip(Tail(d)) ELSE d
\* d times k plus c, for small k and c
RECURSIVE MulAdd(_, _, _)
MulAdd(d, k, c) ==
  IF d = <<>> THEN (IF c = 0 THEN <<>> ELSE Append(MulAdd(<<>>, k, c \div 10), c % 10))
  ELSE LET t == d[Len(d)] * k + c IN Append(MulAdd(SubSeq(d, 1, Len(d) - 1), k, t \div 10), t % 10)
RECURSIVE ModOf(_, _, _)
ModOf(d, k, r) == IF d = <<>> THEN r ELSE ModOf(Tail(d), k, (r * 10 + Head(d)) % k)
RECURSIVE Less(_, _)
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
              ELSE IF a = <<>> THEN FALSE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
Limit == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>>     \* 2^64

Kilo(d) == Strip(MulAdd(d, 1024, 0))
Lit(o) == CASE o.u = "KB" -> Kilo(o.n)
            [] o.u = "MB" -> Kilo(Kilo(o.n))
            [] o.u = "GB" -> Kilo(Kilo(Kilo(o.n)))
\* the least multiple of b that is not below n
Up(n, b) == LET r == ModOf(n, b, 0) IN Strip(MulAdd(n, 1, IF r = 0 THEN 0 ELSE b - r))
Want(o) == CASE o.op = "lit" -> Lit(o)
             [] o.op \in {"up", "upto"} -> Up(o.n, o.b)
             [] o.op = "dig" -> <<IF o.c \in 48..57 THEN 1 ELSE 0>>
\* inputs whose result is a 64-bit number
Legal(o) == Less(Want(o), Limit)

InitSt(e) == [k |-> 0]
Ref(st, o) == [r |-> Want(o)] @@ o
Post(st, e) == [st EXCEPT !.k = @ + 1]
U01(st, e) == e.r = Want(e)
Clause(p, st, e) == CASE p = "U01" -> U01(st, e)
Broken(st, e) == IF e.op = "end" THEN {}
                 ELSE IF e.op = "crash" THEN Props
                 ELSE {p \in Props : ~Clause(p, st, e)}
Sane(st, e) == TRUE
StateOK(st) == st.k >= 0
================================================================================
