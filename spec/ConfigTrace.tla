---------------------------- MODULE ConfigTrace ----------------------------
(* Recorded lookups in configurations.                                        *)
EXTENDS Config, TLC, Json, IOUtils, Trace
VARIABLES l, tree, asked
Step(e) ==
    \* the configuration as written to the file
    CASE e.op = "new" -> asked = <<>> /\ tree' = e.tree /\ asked' = asked
    \* a lookup is about to be made
      [] e.op = "ask" -> asked = <<>> /\ asked' = <<e>> /\ tree' = tree
      [] e.op = "got" ->
            /\ asked # <<>> /\ asked' = <<>> /\ tree' = tree
            /\ \E q \in {asked[1]} : \E r \in {Lookup(tree, q.key, q.type, q.rows, q.cols)} :
                 /\ TRUE = (e.found = r.ok /\ (q.required => Has(tree, q.key)))
                 \* the value, or else the caller's default
                 /\ TRUE = (e.v = (IF r.ok THEN r.v ELSE e.dflt))
                 \* nothing but the value has changed
                 /\ TRUE = (e.rest /\ e.same)
    \* the program stops if and only if a required key is not there
      [] e.op = "crash" -> asked # <<>> /\ TRUE = (asked[1].required /\ ~Has(tree, asked[1].key)) /\ asked' = <<>> /\ tree' = tree
Init == l = 1 /\ tree = None /\ asked = <<>>
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, tree, asked>>
=============================================================================
