------------------------------ MODULE ByteSets ------------------------------
(***************************************************************************)
(* Byte sets are sets.  The state is a set of bytes, changed by inserting  *)
(* and removing bytes and by the set operations; the observations are what *)
(* every query must answer.                                                *)
(* The states explored are the bases with any change at the bytes of R,    *)
(* which lie at the ends of the machine words the implementation uses.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Bases, R, Operands
VARIABLES base, S

All == 0 .. 255

Min(X) == CHOOSE x \in X : \A y \in X : x <= y
Max(X) == CHOOSE x \in X : \A y \in (x + 1) .. 255 : y \notin X
Opt(X, f(_)) == IF X = {} THEN << >> ELSE << f(X) >>
(* The maximal run of members around b. *)
RECURSIVE Down(_, _)
Down(X, b) == IF b > 0 /\ (b - 1) \in X THEN Down(X, b - 1) ELSE b
RECURSIVE Up(_, _)
Up(X, b) == IF b < 255 /\ (b + 1) \in X THEN Up(X, b + 1) ELSE b
Run(X, b) == IF b \in X THEN << Down(X, b), Up(X, b) >> ELSE << >>
(* members as the first and last bytes of their runs, which is how sets are written here *)
Runs(X) == << {x \in X : x = 0 \/ (x - 1) \notin X}, {x \in X : x = 255 \/ (x + 1) \notin X} >>

Ops == {<< "insert", b >> : b \in R} \cup {<< "remove", b >> : b \in R} \cup {<< "complement", 0 >>}
       \cup ({"union", "intersection", "difference"} \X DOMAIN Operands)
Apply(X, op) == CASE op[1] = "insert" -> X \cup {op[2]}
                  [] op[1] = "remove" -> X \ {op[2]}
                  [] op[1] = "complement" -> All \ X
                  [] op[1] = "union" -> X \cup Operands[op[2]]
                  [] op[1] = "intersection" -> X \cap Operands[op[2]]
                  [] op[1] = "difference" -> X \ Operands[op[2]]

RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN << >> ELSE LET m == Min(X) IN << m >> \o SeqOf(X \ {m})
RSeq == SeqOf(R)

Observe(X) == [len |-> Cardinality(X), min |-> Opt(X, Min), max |-> Opt(X, Max),
               span |-> IF X = {} THEN 0 ELSE Max(X) - Min(X) + 1,
               contiguous |-> Cardinality(Runs(X)[1]) <= 1,
               near |-> [i \in 1 .. Cardinality(R) |-> LET b == RSeq[i] IN << b, Run(X, b) >>],
               disjoint |-> [i \in DOMAIN Operands |-> X \cap Operands[i] = {}],
               within |-> [i \in DOMAIN Operands |-> Operands[i] \subseteq X]]
Init == base \in Bases /\ S = base
Next == UNCHANGED base /\ \E b \in R : S' = IF b \in S THEN S \ {b} ELSE S \cup {b}
Spec == Init /\ [][Next]_<< base, S >>
Emit == PrintT("BS " \o ToJson([runs |-> Runs(S), obs |-> Observe(S),
                                 ops |-> {<< op, Runs(Apply(S, op)) >> : op \in Ops}]))
(* Laws that tie the observations together. *)
Laws == /\ Cardinality(S) + Cardinality(All \ S) = 256
        /\ S # {} => Min(S) <= Max(S)
        /\ Cardinality(Runs(S)[1]) = Cardinality(Runs(S)[2])
        /\ \A b \in R : b \in S => {Run(S, b)[1], Run(S, b)[2]} \subseteq S /\ Run(S, b)[1] \in Runs(S)[1] /\ Run(S, b)[2] \in Runs(S)[2]
=============================================================================
