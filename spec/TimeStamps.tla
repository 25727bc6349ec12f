---------------------------- MODULE TimeStamps ----------------------------
(* Time stamps and durations as exact numbers: <<h2, h1, lo, ns>> stands for  *)
(* ((h2 * LB + h1) * LB + lo) seconds and ns nanoseconds, 0 <= h1, lo < LB,   *)
(* 0 <= ns < NB; h2 carries the sign. (TLC's integers have 32 bits.)          *)
EXTENDS Integers, Sequences
CONSTANTS LB, NB

Canonical(t) == /\ t[2] >= 0 /\ t[2] < LB /\ t[3] >= 0 /\ t[3] < LB /\ t[4] >= 0 /\ t[4] < NB

\* carries (or borrows) from right to left
Norm(h2, h1, lo, ns) ==
    LET c1 == IF ns >= NB THEN 1 ELSE IF ns < 0 THEN -1 ELSE 0
        l1 == lo + c1
        c2 == IF l1 >= LB THEN 1 ELSE IF l1 < 0 THEN -1 ELSE 0
        m1 == h1 + c2
        c3 == IF m1 >= LB THEN 1 ELSE IF m1 < 0 THEN -1 ELSE 0
    IN <<h2 + c3, m1 - c3 * LB, l1 - c2 * LB, ns - c1 * NB>>

Add(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4])
Sub(a, b) == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4])
Zero == <<0, 0, 0, 0>>
Ns(n) == IF n >= 0 THEN <<0, 0, 0, n>> ELSE Norm(0, 0, 0, n)

Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ a[2] < b[2]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
            \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
Le(a, b) == a = b \/ Lt(a, b)

\* the six operators <, <=, >, >=, =, /=
Six(lt, le, gt, ge, eq, ne) == [lt |-> lt, le |-> le, gt |-> gt, ge |-> ge, eq |-> eq, ne |-> ne]
Compare(a, b) == Six(Lt(a, b), Le(a, b), Lt(b, a), Le(b, a), a = b, a /= b)

\* comparison of stamps that count as equal within half a quantum of q nanoseconds (at exactly the
\* half quantum the floating point comparison may fall either way)
QEqual == Six(FALSE, TRUE, FALSE, TRUE, TRUE, FALSE)
QLess == Six(TRUE, TRUE, FALSE, FALSE, FALSE, TRUE)
QGreater == Six(FALSE, FALSE, TRUE, TRUE, FALSE, TRUE)
Within(a, b, n) == Le(Sub(a, b), Ns(n)) /\ Le(Sub(b, a), Ns(n))
QCompare(a, b, half) ==
    IF Within(a, b, half - 1) THEN {QEqual}
    ELSE IF Within(a, b, half + 1) THEN {QEqual, IF Lt(a, b) THEN QLess ELSE QGreater}
    ELSE IF Lt(a, b) THEN {QLess} ELSE {QGreater}
=============================================================================
