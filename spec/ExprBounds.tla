----------------------------- MODULE ExprBounds -----------------------------
(***************************************************************************)
(* Ranges computed for numeric expressions: in every environment where the *)
(* expression has a value, the value lies in the range.                    *)
(***************************************************************************)
EXTENDS ExprSem, Json
CONSTANTS File, Shards
VARIABLE i

Recs == ndJsonDeserialize(File)
Within(n, r) == NLe(r[1], n) /\ (r[2] # << >> => NLe(n, r[2][1]))
Env(vs) == [EmptyEnv EXCEPT !.v = [l \in {vs[k][1] : k \in DOMAIN vs} |-> (vs[CHOOSE k \in DOMAIN vs : vs[k][1] = l])[2]]]
Check(n) ==
    LET rec == Recs[n]
    IN \A j \in 1 .. Len(rec.envs) :
          LET v == Eval(rec.e, Env(rec.envs[j]))
          IN IF v = Undef \/ Within(v[2], rec.r) THEN TRUE
             ELSE PrintT("BAD " \o ToJson([n |-> n, id |-> rec.id, env |-> rec.envs[j], v |-> v, range |-> rec.r]))

Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
=============================================================================
