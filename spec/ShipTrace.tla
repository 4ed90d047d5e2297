----------------------------- MODULE ShipTrace ------------------------------
(***************************************************************************)
(* Validation of runs of the shipped decoders.  Items holds the shipped    *)
(* format definitions; every line of the trace file names one of them and, *)
(* for some inputs, what the committed decoder did (out) and what the      *)
(* interpreter did (int) with the definition taken by itself.              *)
(*                                                                         *)
(* The interpreter must show a behaviour of the definition (Run); so must  *)
(* the committed decoder, which was compiled for the places the definition *)
(* is used at: what it leaves for those is not held against it (results    *)
(* with tail = FALSE).  Whenever the definition determines the result both *)
(* must give that one.  Where an expression of the definition has no value *)
(* on the input, nothing is claimed.                                       *)
(***************************************************************************)
EXTENDS FormatSem, Json
CONSTANTS File, ItemsFile, Shards
VARIABLE i

Recs == ndJsonDeserialize(File)
Items == JsonDeserialize(ItemsFile)

(* Items refer only to earlier ones: the classifications of FormatSem, by  *)
(* item, once and for all.                                                 *)
RECURSIVE PreciseIn(_, _)
PreciseIn(T, f) ==
    /\ f.k \in PreciseKinds
    /\ f.k \in {"tuple", "seq", "union", "lifto"} => \A j \in DOMAIN f.fs : PreciseIn(T, f.fs[j])
    /\ f.k \in {"variant", "rep", "rep1", "repc", "map", "let", "letf", "mseq", "hint", "letview"} => PreciseIn(T, f.f)
    /\ f.k \in {"letf", "mseq"} => PreciseIn(T, f.g)
    /\ f.k = "repc" => f.e.k = "num"
    /\ f.k = "item" => T[f.i + 1]
RECURSIVE LossyIn(_, _)
LossyIn(T, f) ==
    \/ f.k \in {"permit", "peeknot", "slice", "nondet"}
    \/ f.k \in {"tuple", "seq", "union", "lifto"} /\ \E j \in DOMAIN f.fs : LossyIn(T, f.fs[j])
    \/ f.k = "match" /\ \E j \in DOMAIN f.bs : LossyIn(T, f.bs[j][2])
    \/ f.k \in {"letf", "mseq"} /\ LossyIn(T, f.g)
    \/ f.k = "item" /\ T[f.i + 1]
    \/ f.k \notin {"tuple", "seq", "union", "nondet", "lifto", "match", "item", "permit", "slice", "peeknot"} /\ "f" \in DOMAIN f /\ LossyIn(T, f.f)
RECURSIVE ChoiceIn(_, _)
ChoiceIn(T, f) ==
    \/ f.k \in {"union", "rep", "rep1", "repb"}
    \/ f.k \in {"tuple", "seq", "nondet", "lifto"} /\ \E j \in DOMAIN f.fs : ChoiceIn(T, f.fs[j])
    \/ f.k = "match" /\ \E j \in DOMAIN f.bs : ChoiceIn(T, f.bs[j][2])
    \/ f.k \in {"letf", "mseq"} /\ ChoiceIn(T, f.g)
    \/ f.k = "item" /\ T[f.i + 1]
    \/ f.k \notin {"tuple", "seq", "nondet", "lifto", "match", "item"} /\ "f" \in DOMAIN f /\ ChoiceIn(T, f.f)
PreciseT == LET RECURSIVE go(_, _)
                go(k, acc) == IF k > Len(Items) THEN acc ELSE go(k + 1, Append(acc, PreciseIn(acc, Items[k].f)))
            IN go(1, << >>)
LossyT == LET RECURSIVE go(_, _)
              go(k, acc) == IF k > Len(Items) THEN acc ELSE go(k + 1, Append(acc, LossyIn(acc, Items[k].f)))
          IN go(1, << >>)
ChoiceT == LET RECURSIVE go(_, _)
               go(k, acc) == IF k > Len(Items) THEN acc ELSE go(k + 1, Append(acc, ChoiceIn(acc, Items[k].f)))
           IN go(1, << >>)
ShipPrecise(M, f) == PreciseIn(PreciseT, f)
ShipLossy(M, f) == LossyIn(LossyT, f)
ShipHasChoice(M, f) == ChoiceIn(ChoiceT, f)
ShipMaxReps == 1000

Outcome(r) == IF IsOk(r) THEN << "ok", r[2], r[3] >> ELSE IF IsFail(r) THEN << "err" >> ELSE << "panic" >>
Top(rec) == [k |-> "item", i |-> rec.i, args |-> << >>, views |-> << >>]
Alone(rec, c) == {Outcome(r) : r \in Run(Items, Top(rec), c.in)}
Used(rec, c) == {Outcome(r) : r \in PFoll(Items, Top(rec), EmptyEnv, [b |-> c.in, e |-> Len(c.in), lo |-> 0], 0, FALSE)}
Conforms(rec, c) ==
    LET al == Alone(rec, c)
    IN \/ << "panic" >> \in al
       \/ /\ c.int \in al
          /\ c.out = c.int \/ (~rec.top /\ c.out \in Used(rec, c))

Check(n) ==
    LET rec == Recs[n]
    IN \A j \in 1 .. Len(rec.cases) :
          LET c == rec.cases[j]
          IN IF Conforms(rec, c) THEN TRUE
             ELSE PrintT("BAD " \o ToJson([n |-> n, id |-> rec.id, in |-> c.in, out |-> c.out, int |-> c.int,
                                           want |-> Alone(rec, c), used |-> IF rec.top THEN {} ELSE Used(rec, c)]))

Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
Spec == Init /\ [][Next]_i
=============================================================================
