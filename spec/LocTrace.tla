----------------------------- MODULE LocTrace -------------------------------
(***************************************************************************)
(* Validation of recorded runs of the locating decoder: the outcome must   *)
(* be a behaviour of FormatSem, and the recorded locations those LocSem    *)
(* gives to the decoded value.                                             *)
(***************************************************************************)
EXTENDS LocSem, Json
CONSTANTS File, Shards
VARIABLE i

Recs == ndJsonDeserialize(File)

Outcome(r) == IF IsOk(r) THEN << "ok", r[2], r[3] >> ELSE IF IsFail(r) THEN << "err" >> ELSE << "panic" >>
Allowed(rec, c) == {Outcome(r) : r \in Run(rec.M, rec.f, c.in)}
Bad(n, rec, c, why, want) ==
    PrintT("BAD " \o ToJson([n |-> n, id |-> rec.id, in |-> c.in, out |-> c.lout, loc |-> c.loc, why |-> why, want |-> want]))
Check(n) ==
    LET rec == Recs[n]
    IN \A j \in 1 .. Len(rec.cases) :
          LET c == rec.cases[j]
              al == Allowed(rec, c)
          IN IF c.lout \in al \/ (c.lout = << "err" >> /\ << "panic" >> \in al)
             THEN IF c.lout[1] # "ok" THEN TRUE
                  ELSE LET t == RunLoc(rec.M, rec.f, c.in, c.lout[2], c.lout[3])
                       IN IF Fits(t, c.loc) THEN TRUE ELSE Bad(n, rec, c, "location", {t})
             ELSE Bad(n, rec, c, "value", al)

Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
Spec == Init /\ [][Next]_i
=============================================================================
