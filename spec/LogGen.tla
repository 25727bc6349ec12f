------------------------------- MODULE LogGen -------------------------------
(* Generates every small log (records over Keys and stamps 0..MaxT, up to     *)
(* MaxRecords, interleaved in every way) as commands for the logging driver;  *)
(* each is then replayed with several subscriptions and maintenance periods.  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Keys, MaxT, MaxRecords, Periods
VARIABLES hist, n
Digits == <<"01", "02", "03", "04", "05", "06", "07", "08", "09">>
Cmd(k, t, i) == "log a " \o ToString(k) \o " " \o ToString(100 + t) \o " 0 " \o Digits[i] \o "000000000000" \o Digits[k]
Start == <<"new", "open a d 100 0">> \o [i \in 1..Len(Keys) |-> "stream a " \o ToString(Keys[i]) \o " 0"]
Ks == {Keys[i] : i \in 1..Len(Keys)}
SubLists == <<"1", "2", "1,2", "2,1">>
Readings == <<"close a 103 0", "dump a">> \o [i \in 1..Len(SubLists) |-> "read a " \o SubLists[i]]
            \o [i \in 1..Len(Periods) |-> "read a 1,2 " \o Periods[i]] \o <<"dump a">>
KeysDef == <<1, 2>>
\* a period in nanoseconds and the call at which the callback reports an error, per callback
PeriodsDef == <<"500000000 0", "1000000000 0", "1000000000 1", "1000000000 2", "2000000000 0 500000000 3", "500000000 2 1000000000 0">>
Init == hist = Start /\ n = 0
Next == /\ n < MaxRecords
        /\ \E k \in Ks, t \in 0..MaxT : hist' = Append(hist, Cmd(k, t, n + 1)) /\ n' = n + 1
Spec == Init /\ [][Next]_<<hist, n>>
\* prints every behaviour of full length
Emit == n = MaxRecords => PrintT(<<"GEN">> \o hist \o Readings)
=============================================================================
