----------------------------- MODULE ConfigGen -----------------------------
(* Histories that build a configuration entry by entry.                       *)
EXTENDS ConfigMC
VARIABLE hist
What(v) == IF v.k = "leaf" THEN IF v.t = <<120>> THEN "word" ELSE "number" ELSE IF v.k = "list" THEN
             IF v.at = <<>> THEN "nolist" ELSE IF v.at[2].t = <<120>> THEN "mixed" ELSE "numbers" ELSE v.k
Str(p) == FoldLeft(LAMBDA s, x : s \o (IF x = A THEN "a" ELSE "b"), "", p)
GInit == Init /\ hist = <<>>
GNext == Next /\ hist' = hist \o <<Str(put'[1]), What(put'[2])>> /\ (n' = Puts => PrintT(<<"GEN", "new">> \o hist'))
GSpec == GInit /\ [][GNext]_<<vars, hist>>
=============================================================================
