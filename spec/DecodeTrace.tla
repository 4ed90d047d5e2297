---------------------------- MODULE DecodeTrace -----------------------------
(***************************************************************************)
(* Validation of recorded decoder runs: every line of the trace file holds *)
(* a format and what the implementation did with some inputs; a run is a   *)
(* behaviour of the specification iff its outcome is in Run(format,input). *)
(***************************************************************************)
EXTENDS FormatSem, Json
CONSTANTS File, Shards
VARIABLE i

Recs == ndJsonDeserialize(File)

Outcome(r) == IF IsOk(r) THEN << "ok", r[2], r[3] >> ELSE IF IsFail(r) THEN << "err" >> ELSE << "panic" >>
Allowed(rec, c) == {Outcome(r) : r \in Run(rec.M, rec.f, c.in)}
Check(n) ==
    LET rec == Recs[n]
    IN \A j \in 1 .. Len(rec.cases) :
          LET al == Allowed(rec, rec.cases[j])
              out == rec.cases[j].out
          (* an expression without a value may be refused in either way *)
          IN IF out \in al \/ (out = << "err" >> /\ << "panic" >> \in al) THEN TRUE
             ELSE PrintT("BAD " \o ToJson([n |-> n, id |-> rec.id, in |-> rec.cases[j].in, out |-> rec.cases[j].out, want |-> al]))

Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
Spec == Init /\ [][Next]_i
=============================================================================
