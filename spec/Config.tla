------------------------------- MODULE Config -------------------------------
(* A configuration file and lookups in it. A node is a map                    *)
(*   [k |-> "map", names |-> <<...>>, at |-> <<...>>] (names all different),  *)
(* a list [k |-> "list", at |-> <<...>>], a scalar [k |-> "leaf", t |-> text] *)
(* or [k |-> "null"]. Names and texts are sequences of character codes. A     *)
(* lookup names a path of names separated by slashes and a type of value.     *)
EXTENDS Integers, Sequences, SequencesExt
None == [k |-> "none"]
Child(n, name) ==
    IF n.k # "map" THEN None
    ELSE LET i == {j \in 1..Len(n.names) : n.names[j] = name}
         IN IF i = {} THEN None ELSE n.at[CHOOSE j \in i : TRUE]
At(n, path) == FoldLeft(Child, n, path)
Slash == 47
Path(key) == FoldLeft(LAMBDA p, c : IF c = Slash THEN Append(p, <<>>) ELSE [p EXCEPT ![Len(p)] = Append(@, c)], <<<<>>>>, key)

(* Texts. A number is read by the states: 0 nothing yet, 1 sign, 2 digits,    *)
(* 3 point without digits, 4 point after digits, 5 digits after the point,    *)
(* 6 exponent sign letter, 7 its sign, 8 its digits, 9 not a number.          *)
Digit(c) == c \in 48..57
Next1(q, c) ==
    IF q = 0 THEN IF Digit(c) THEN 2 ELSE IF c \in {43, 45} THEN 1 ELSE IF c = 46 THEN 3 ELSE 9
    ELSE IF q = 1 THEN IF Digit(c) THEN 2 ELSE IF c = 46 THEN 3 ELSE 9
    ELSE IF q = 2 THEN IF Digit(c) THEN 2 ELSE IF c = 46 THEN 4 ELSE IF c \in {69, 101} THEN 6 ELSE 9
    ELSE IF q = 3 THEN IF Digit(c) THEN 5 ELSE 9
    ELSE IF q \in {4, 5} THEN IF Digit(c) THEN 5 ELSE IF c \in {69, 101} THEN 6 ELSE 9
    ELSE IF q = 6 THEN IF Digit(c) THEN 8 ELSE IF c \in {43, 45} THEN 7 ELSE 9
    ELSE IF q \in {7, 8} THEN IF Digit(c) THEN 8 ELSE 9
    ELSE 9
Read(st, c) ==
    LET q == Next1(st.q, c)
    IN [q |-> q, neg |-> st.neg \/ (st.q = 0 /\ c = 45), xneg |-> st.xneg \/ (st.q = 6 /\ c = 45),
        m |-> IF q \in {2, 5} /\ Digit(c) THEN 10 * st.m + (c - 48) ELSE st.m,
        f |-> IF q = 5 THEN st.f + 1 ELSE st.f,
        x |-> IF q = 8 THEN 10 * st.x + (c - 48) ELSE st.x]
Number(t) == FoldLeft(Read, [q |-> 0, neg |-> FALSE, xneg |-> FALSE, m |-> 0, f |-> 0, x |-> 0], t)
Power(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 10 ELSE IF n = 2 THEN 100 ELSE IF n = 3 THEN 1000 ELSE IF n = 4 THEN 10000
            ELSE IF n = 5 THEN 100000 ELSE IF n = 6 THEN 1000000 ELSE 10000000
No == [ok |-> FALSE, v |-> 0]
Yes(v) == [ok |-> TRUE, v |-> v]
Whole(t) == LET r == Number(t) IN IF r.q = 2 THEN Yes(IF r.neg THEN -r.m ELSE r.m) ELSE No
\* in thousandths
Dbl(t) ==
    LET r == Number(t)
        s == 3 - r.f + (IF r.xneg THEN -r.x ELSE r.x)
        a == IF s >= 0 THEN r.m * Power(s) ELSE r.m \div Power(-s)
    IN IF r.q \in {2, 4, 5, 8} THEN Yes(IF r.neg THEN -a ELSE a) ELSE No
Upper(c) == c \in 65..90
Small(c) == IF Upper(c) THEN c + 32 ELSE c
Letter(c) == Upper(c) \/ c \in 97..122
Words == [true |-> {<<121>>, <<121, 101, 115>>, <<116, 114, 117, 101>>, <<111, 110>>},
          false |-> {<<110>>, <<110, 111>>, <<102, 97, 108, 115, 101>>, <<111, 102, 102>>}]
\* yes, Yes and YES are words; yEs is none
Bool(t) ==
    LET w == [i \in 1..Len(t) |-> Small(t[i])]
        case == \/ \A i \in 1..Len(t) : ~Upper(t[i])
                \/ Len(t) > 0 /\ Upper(t[1]) /\ ((\A i \in 2..Len(t) : Upper(t[i])) \/ (\A i \in 2..Len(t) : ~Upper(t[i])))
    IN IF ~case THEN No ELSE IF w \in Words.true THEN Yes(1) ELSE IF w \in Words.false THEN Yes(0) ELSE No

(* Values of a node *)
Scalar(n, type) ==
    IF n.k # "leaf" THEN No
    ELSE CASE type = "int" -> Whole(n.t) [] type = "dbl" -> Dbl(n.t) [] type = "bool" -> Bool(n.t) [] type = "str" -> Yes(n.t)
List(n, type, size) ==
    IF n.k # "list" \/ (size >= 0 /\ Len(n.at) # size) THEN No
    ELSE LET e == [i \in 1..Len(n.at) |-> Scalar(n.at[i], type)]
         IN IF \A i \in 1..Len(n.at) : e[i].ok THEN Yes([i \in 1..Len(n.at) |-> e[i].v]) ELSE No
\* lists of lists of numbers of one size
Lists(n, size) ==
    IF n.k # "list" THEN No
    ELSE LET e == [i \in 1..Len(n.at) |-> List(n.at[i], "dbl", size)]
         IN IF \A i \in 1..Len(n.at) : e[i].ok THEN Yes([i \in 1..Len(n.at) |-> e[i].v]) ELSE No
\* types: a scalar type; [type]s any list; <<rows, cols>> matrices row by row; vecs
Value(n, type, rows, cols) ==
    CASE type \in {"int", "dbl", "bool", "str"} -> Scalar(n, type)
      [] type = "ints" -> List(n, "int", -1)
      [] type = "dbls" -> List(n, "dbl", -1)
      [] type = "strs" -> List(n, "str", -1)
      [] type = "mat" -> List(n, "dbl", rows * cols)
      [] type = "vecs" -> Lists(n, rows)
\* a lookup: what it gives, and whether there is such a key at all
Lookup(n, key, type, rows, cols) == LET x == At(n, Path(key)) IN IF x.k = "none" THEN No ELSE Value(x, type, rows, cols)
Has(n, key) == At(n, Path(key)).k # "none"
=============================================================================
