------------------------------ MODULE ConfigMC ------------------------------
(* Configurations built entry by entry (an entry written under a path makes   *)
(* the maps it needs): what each lookup finds is what was written there last. *)
EXTENDS Config, TLC, FiniteSets
CONSTANTS Puts, Long
VARIABLES tree, n, put
vars == <<tree, n, put>>
A == <<97>>
B == <<98>>
Names == {A, B}
Leaf(t) == [k |-> "leaf", t |-> t]
L(s) == [k |-> "list", at |-> s]
Empty == [k |-> "map", names |-> <<>>, at |-> <<>>]
Values == {Leaf(<<49, 50>>), Leaf(<<120>>), L(<<>>), L(<<Leaf(<<49>>), Leaf(<<45, 53>>)>>), L(<<Leaf(<<49>>), Leaf(<<120>>)>>), Empty, [k |-> "null"]}
Paths == UNION {[1..i -> Names] : i \in 1..Long}
Join(p) == FoldLeft(LAMBDA s, x : IF s = <<>> THEN x ELSE s \o <<Slash>> \o x, <<>>, p)
Put1(m, name, v) ==
    LET i == {j \in 1..Len(m.names) : m.names[j] = name}
    IN IF i = {} THEN [k |-> "map", names |-> Append(m.names, name), at |-> Append(m.at, v)]
       ELSE [m EXCEPT !.at[CHOOSE j \in i : TRUE] = v]
RECURSIVE Put(_, _, _)
Put(m, p, v) ==
    LET base == IF m.k = "map" THEN m ELSE Empty
    IN IF p = <<>> THEN v ELSE Put1(base, Head(p), Put(Child(base, Head(p)), Tail(p), v))
Init == tree = Empty /\ n = 0 /\ put = <<>>
Next == \E p \in Paths : \E v \in Values : n < Puts /\ n' = n + 1 /\ tree' = Put(tree, p, v) /\ put' = <<p, v>>
Spec == Init /\ [][Next]_vars
Starts(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]
Types == {"int", "dbl", "str", "dbls", "strs", "ints"}
SplitsBack == \A p \in Paths : Path(Join(p)) = p
\* found under exactly the path it was written to
PutGet == put # <<>> => At(tree, Path(Join(put[1]))) = put[2]
\* lookups elsewhere are as before: neither above nor below what was written
Frame == [][\A q \in Paths : \A ty \in Types :
              ~Starts(put'[1], q) /\ ~Starts(q, put'[1]) =>
                 \/ Lookup(tree', Join(q), ty, 0, 0) = Lookup(tree, Join(q), ty, 0, 0)
                 \* a value that was in the way has become a map
                 \/ \E r \in Paths : Starts(r, put'[1]) /\ At(tree, r).k \notin {"map", "none"}]_vars
\* nothing below a value that is no map, and no value of a map
Below == \A q \in Paths : At(tree, q).k \notin {"map", "none"} => \A r \in Paths : Starts(q, r) /\ q # r => ~Has(tree, Join(r))
Typed == \A q \in Paths : \A ty \in Types :
            Lookup(tree, Join(q), ty, 0, 0).ok => Has(tree, Join(q)) /\ At(tree, q).k \in (IF ty \in {"int", "dbl", "str"} THEN {"leaf"} ELSE {"list"})
SizedOnly == \A q \in Paths : \A r \in 1..2 : \A c \in 1..2 :
                LET x == Lookup(tree, Join(q), "mat", r, c) IN x.ok => Len(x.v) = r * c /\ x = Lookup(tree, Join(q), "dbls", 0, 0)
\* decimal texts
RECURSIVE Digits(_)
Digits(i) == IF i < 10 THEN <<48 + i>> ELSE Append(Digits(i \div 10), 48 + (i % 10))
Text(i) == IF i < 0 THEN <<45>> \o Digits(-i) ELSE Digits(i)
ASSUME \A i \in -1200..1200 : Whole(Text(i)) = Yes(i) /\ Dbl(Text(i)) = Yes(1000 * i)
ASSUME \A i \in 0..400 : \A f \in 0..99 :
          LET t == Digits(i) \o <<46, 48 + (f \div 10), 48 + (f % 10)>>
          IN Dbl(t) = Yes(1000 * i + 10 * f) /\ ~Whole(t).ok /\ Dbl(<<45>> \o t) = Yes(-(1000 * i + 10 * f))
ASSUME Dbl(<<49, 101, 50>>) = Yes(100000) /\ Dbl(<<50, 101, 45, 51>>) = Yes(2) /\ Dbl(<<46, 53>>) = Yes(500) /\ ~Dbl(<<49, 101>>).ok /\ ~Dbl(<<>>).ok
=============================================================================
