------------------------------ MODULE DequeGen ------------------------------
(* Enumerates all behaviours of Deque up to a length and prints each as the   *)
(* commands that drive the real buffer through it.                            *)
EXTENDS Deque, TLC
CONSTANTS Capacity, Depth, Two
VARIABLE hist
B == IF Two THEN {0, 1} ELSE {0}
Cmd(c, b) == c \o " " \o ToString(b)
Val == Len(hist) + 1
Init == cap = Capacity /\ bufs = (0 :> <<>>)
        /\ hist = <<"new " \o ToString(Capacity), "create 0">>
Do(A, c) == A /\ hist' = Append(hist, c)
Next == \E b \in B :
    \/ Do(PushBack(b, Val), Cmd("push_back", b) \o " " \o ToString(Val))
    \/ Do(PushFront(b, Val), Cmd("push_front", b) \o " " \o ToString(Val))
    \/ ~Two /\ Do(PushBack(b, Val), Cmd("emplace_back", b) \o " " \o ToString(Val))
    \/ ~Two /\ Do(PushFront(b, Val), Cmd("emplace_front", b) \o " " \o ToString(Val))
    \/ ~Two /\ \E i \in DOMAIN bufs[b] : i \in {1, Len(bufs[b])} /\
            \/ Do(OwnBack(b, i), Cmd("own_back", b) \o " " \o ToString(i - 1))
            \/ Do(OwnFront(b, i), Cmd("own_front", b) \o " " \o ToString(i - 1))
    \/ Do(PopBack(b), Cmd("pop_back", b))
    \/ Do(PopFront(b), Cmd("pop_front", b))
    \/ Do(Clear(b), Cmd("clear", b))
    \/ Two /\ \E c \in B : \/ Do(CopyTo(b, c), Cmd("copy", b) \o " " \o ToString(c))
                           \/ Do(AssignTo(b, c), Cmd("assign", b) \o " " \o ToString(c))
    \/ Two /\ b = 1 /\ Do(Destroy(b), Cmd("destroy", b))
Spec == Init /\ [][Next]_<<cap, bufs, hist>>
Short == Len(hist) < Depth + 2
Emit == Len(hist) = Depth + 2 => PrintT(<<"GEN">> \o hist)
=============================================================================
