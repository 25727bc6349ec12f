----------------------------- MODULE MotionGen ------------------------------
(* Abstract histories: which registers (of which storage) are built how,      *)
(* composed, inverted, copied, taken apart - with every aliasing pattern.     *)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLES s, m
\* 1: owns its memory, 2: maps caller's memory, 3: a copy made of another, 4: the rotation inside motion 3
Regs == {1, 2, 3}
Ops == ({"rset", "raxis", "reuler", "rtwo", "rinvert", "mset", "mexp"} \X Regs \X {0} \X {0})
    \cup ({"rmul"} \X {1, 2} \X {2, 4} \X Regs) \cup ({"rmuleq"} \X Regs \X (Regs \cup {4}) \X {0})
    \cup ({"rlog", "reul", "rcopy", "rinv"} \X {2, 4} \X {0} \X {1, 2})
    \cup ({"mmul"} \X Regs \X Regs \X Regs) \cup ({"mlog", "minv", "mcopy"} \X Regs \X {0} \X Regs)
Init == s = <<>> /\ m = 0
Next == /\ m < Depth /\ m' = m + 1
        /\ \E o \in Ops : s' = s \o <<o[1], ToString(o[2]), ToString(o[3]), ToString(o[4])>>
        /\ (m' = Depth => PrintT(<<"GEN", "new">> \o s'))
Spec == Init /\ [][Next]_<<s, m>>
=============================================================================
