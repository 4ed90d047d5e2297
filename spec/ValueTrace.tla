---------------------------- MODULE ValueTrace ------------------------------
(***************************************************************************)
(* Validation of runs of both decoders: every line of the trace file holds *)
(* a format and what the implementation did with some inputs; a run is a   *)
(* behaviour of the specification iff its outcome is in Run(format,input). *)
(***************************************************************************)
EXTENDS FormatSem, Json
CONSTANTS File, Shards
VARIABLE i

Recs == ndJsonDeserialize(File)

Outcome(r) == IF IsOk(r) THEN << "ok", r[2], r[3] >> ELSE IF IsFail(r) THEN << "err" >> ELSE << "panic" >>
Allowed(rec, c) == {Outcome(r) : r \in Run(rec.M, rec.f, c.in)}
Fine(out, al) == out \in al \/ (out = << "err" >> /\ << "panic" >> \in al)
Check(n) ==
    LET rec == Recs[n]
    IN \A j \in 1 .. Len(rec.cases) :
          LET c == rec.cases[j]
              al == Allowed(rec, c)
          (* an expression without a value may be refused in either way *)
          IN IF Fine(c.out, al) /\ Fine(c.lout, al) THEN TRUE
             ELSE PrintT("BAD " \o ToJson([n |-> n, id |-> rec.id, in |-> c.in, out |-> c.out, lout |-> c.lout, want |-> al]))

Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
Spec == Init /\ [][Next]_i
=============================================================================
