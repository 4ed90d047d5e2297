------------------------------ MODULE GenTrace ------------------------------
(***************************************************************************)
(* Validation of runs of emitted decoders.  Every line of the trace file   *)
(* holds a program and, for some inputs, what the compiled decoder did     *)
(* (out) and what the interpreter did (int).                               *)
(*                                                                         *)
(* A run conforms iff it is a behaviour of the format (Run of FormatSem)   *)
(* and the very behaviour the interpreter shows: where the specification   *)
(* leaves a choice open, both decoders must take it alike.  Only where an  *)
(* expression has no value (overflow, index out of range) may they differ. *)
(***************************************************************************)
EXTENDS FormatSem, Json
CONSTANTS File, Shards
VARIABLE i

Recs == ndJsonDeserialize(File)

Outcome(r) == IF IsOk(r) THEN << "ok", r[2], r[3] >> ELSE IF IsFail(r) THEN << "err" >> ELSE << "panic" >>
Allowed(rec, c) == {Outcome(r) : r \in Run(rec.M, rec.f, c.in)}

Conforms(al, c) == \/ << "panic" >> \in al
                   \/ c.out \in al /\ c.out = c.int

Check(n) ==
    LET rec == Recs[n]
    IN \A j \in 1 .. Len(rec.cases) :
          LET c == rec.cases[j]
              al == Allowed(rec, c)
          IN IF Conforms(al, c) THEN TRUE
             ELSE PrintT("BAD " \o ToJson([n |-> n, id |-> rec.id, in |-> c.in, out |-> c.out, int |-> c.int, want |-> al]))

Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
Spec == Init /\ [][Next]_i
=============================================================================
