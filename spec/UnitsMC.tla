-------------------------------- MODULE UnitsMC --------------------------------
EXTENDS Units, Json, FiniteSets, Randomization
CONSTANTS Mode, Depth
VARIABLES st, hist

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
RECURSIVE Pow2(_)
Pow2(i) == IF i = 0 THEN <<1>> ELSE Strip(MulAdd(Pow2(i - 1), 2, 0))
Sub1(d) == LET k == Len(d) IN IF d[k] > 0 THEN [d EXCEPT ![k] = @ - 1] ELSE d
\* around the powers of two, and a few long ones
Far == UNION {{Pow2(i), Sub1(Pow2(i)), Strip(MulAdd(Pow2(i), 1, 1)), Strip(MulAdd(Pow2(i), 1, 7)), Strip(MulAdd(Pow2(i), 1, 4095))} : i \in {3, 8, 9, 10, 12, 15, 16, 20, 31, 32, 33, 40, 48, 53, 62, 63}}
       \cup {<<9, 9, 9, 9, 9, 9, 9, 9, 9, 9>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>,
             <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 0, 0>>, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>}
Near(k) == {Digits(i) : i \in 0..k}
Ns == Near(IF Depth > 1 THEN 1100 ELSE 300) \cup Far
Bs == {1, 2, 3, 5, 7, 8, 10, 12, 16, 24, 31, 32, 33, 48, 64, 100, 128, 255, 256, 1000, 1024, 4096, 65536, 1048576, 99999999}
Ts == {8, 16, 32, 64, 128, 4096, 65536, 1048576}
Lits == Near(IF Depth > 1 THEN 2100 ELSE 300) \cup Far \cup {<<0, 0>>, <<0, 7>>, <<0, 0, 1, 0, 2, 4>>, <<1, 0, 0, 0>>, <<1, 0, 0, 1>>, <<9, 0, 9, 0, 9>>, <<1, 7, 1, 7, 9, 8, 6, 9, 1, 8, 3>>,
                       <<1, 7, 5, 9, 2, 1, 8, 6, 0, 4, 4, 4, 1, 5>>, <<1, 8, 0, 1, 4, 3, 9, 8, 5, 0, 9, 4, 8, 1, 9, 8, 3>>}
Ops == {[op |-> "lit", u |-> u, n |-> n] : u \in {"KB", "MB", "GB"}, n \in Lits}
       \cup {[op |-> "up", n |-> n, b |-> b] : n \in Ns, b \in Bs}
       \cup {[op |-> "upto", n |-> n, b |-> b] : n \in Ns, b \in Ts}
       \cup {[op |-> "dig", c |-> c] : c \in 0..127}
Init == st = InitSt([op |-> "begin"]) /\ hist = <<[op |-> "begin"]>>
\* what the reference makes true of every result, said differently
Facts(o, r) ==
  CASE o.op \in {"up", "upto"} -> /\ ModOf(r, o.b, 0) = 0 /\ ~Less(r, Strip(o.n))
                                  /\ Less(r, Strip(MulAdd(o.n, 1, o.b)))
    [] o.op = "lit" -> ModOf(r, 1024, 0) = 0 /\ (Strip(o.n) = <<0>> <=> r = <<0>>)
    [] OTHER -> TRUE
Step(o) == LET e == Ref(st, o) IN
  /\ Assert(Broken(st, e) = {} /\ Facts(o, e.r), <<"reference violates", e>>)
  /\ st' = Post(st, e)
  /\ hist' = Append(hist, o)
  /\ PrintT("B " \o ToJson(hist'))
Next == Len(hist) = 1 /\ \E o \in Ops : Legal(o) /\ Step(o)
Spec == Init /\ [][Next]_<<st, hist>>
Inv == StateOK(st)
================================================================================
