---------------------------- MODULE BoundsTrace -----------------------------
(***************************************************************************)
(* Size analysis against the meaning of formats.  A record holds a format, *)
(* the ranges the analyses report for it, runs of the implementation and   *)
(* pairs of inputs.  Required:                                             *)
(*   - every success the meaning of the format allows on an input, and the *)
(*     recorded one, consumes a number of bytes within the match range;    *)
(*   - inputs of equal length that agree on as many bytes as the           *)
(*     look-ahead range admits have the same outcomes.                     *)
(* Ranges are << lo, hi >> with hi = << >> for none, numbers as in BigNat. *)
(***************************************************************************)
EXTENDS FormatSem, Json
CONSTANTS File, Shards
VARIABLE i

Recs == ndJsonDeserialize(File)
Within(n, r) == NLe(r[1], NOf(n)) /\ (r[2] # << >> => NLe(NOf(n), r[2][1]))
Outcome(r) == IF IsOk(r) THEN << "ok", r[2], r[3] >> ELSE IF IsFail(r) THEN << "err" >> ELSE << "panic" >>

Sizes(rec, c) == {r[3] : r \in {q \in Run(rec.M, rec.f, c.in) : IsOk(q)}}
                 \cup (IF c.out[1] = "ok" THEN {c.out[3]} ELSE {})
Report(n, what, d) == PrintT("BAD " \o ToJson([n |-> n, id |-> Recs[n].id, what |-> what, d |-> d]))
Check(n) ==
    LET rec == Recs[n]
    IN /\ \A j \in 1 .. Len(rec.cases) : \A k \in DOMAIN rec.match : \A s \in Sizes(rec, rec.cases[j]) :
             IF Within(s, rec.match[k]) THEN TRUE
             ELSE Report(n, "size", << rec.cases[j].in, s, rec.match[k] >>)
       /\ \A j \in 1 .. Len(rec.pairs) :
             LET p == rec.pairs[j]
                 A == {Outcome(r) : r \in Run(rec.M, rec.f, p[1])}
                 B == {Outcome(r) : r \in Run(rec.M, rec.f, p[2])}
             IN IF A = B THEN TRUE ELSE Report(n, "look-ahead", << p, A, B >>)

Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
=============================================================================
