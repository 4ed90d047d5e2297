----------------------------- MODULE Intervals ------------------------------
(***************************************************************************)
(* Interval arithmetic on unsigned machine words.  A range is a pair of    *)
(* bounds lo <= hi, hi possibly missing (no upper limit but the word's).   *)
(* The specification gives, for the operations on values,                  *)
(*     Op(o, x, y) = << >> where undefined (overflow, underflow, division  *)
(*                   by zero, shift beyond the word), else << result >>    *)
(* and requires of an operation on ranges that it contains Op of every     *)
(* pair of members, is the single value Op(o, x, y) on single values for   *)
(* the operations in ExactOps, and always yields a range.                  *)
(* The state is a pair of values; the table of results is emitted for all  *)
(* pairs over V, and all ranges with ends in V are judged against it.      *)
(***************************************************************************)
EXTENDS BigNat, TLC, Json
CONSTANT V         \* sequence of numbers, increasing
VARIABLES i, j

W == 64
Fit(n) == IF NFits(n, W) THEN << n >> ELSE << >>
Ops == {"add", "sub", "mul", "div", "rem", "and", "or", "shl", "shr"}
ExactOps == {"add", "sub", "mul", "div", "rem", "shl", "shr"}
Op(o, x, y) ==
    CASE o = "add" -> Fit(NAdd(x, y))
      [] o = "sub" -> IF NLt(x, y) THEN << >> ELSE << NSub(x, y) >>
      [] o = "mul" -> Fit(NMul(x, y))
      [] o = "div" -> IF y = Zero THEN << >> ELSE << NDiv(x, y) >>
      [] o = "rem" -> IF y = Zero THEN << >> ELSE << NRem(x, y) >>
      [] o = "and" -> << NAnd(x, y) >>
      [] o = "or" -> << NOr(x, y) >>
      [] o = "shl" -> IF NInt(y) >= W THEN << >> ELSE Fit(NShl(x, NInt(y)))
      [] o = "shr" -> IF NInt(y) >= W THEN << >> ELSE << NShr(x, NInt(y)) >>
(* bytes needed for a number of bits *)
Bytes(x) == LET q == NDivMod(x, NOf(8)) IN IF q[2] = Zero THEN q[1] ELSE NAdd(q[1], One)

Init == i \in DOMAIN V /\ j \in DOMAIN V
Next == UNCHANGED << i, j >>
Spec == Init /\ [][Next]_<< i, j >>
Emit == PrintT("IV " \o ToJson([i |-> i, j |-> j, x |-> V[i], y |-> V[j], lt |-> NLt(V[i], V[j]),
                                 exact |-> ExactOps, bytes |-> Bytes(V[i]), r |-> [o \in Ops |-> Op(o, V[i], V[j])]]))
(* The value operations satisfy the laws the range operations are built on. *)
Laws == LET x == V[i]  y == V[j] IN
        /\ NLe(NAnd(x, y), NMin(x, y)) /\ NLe(NMax(x, y), NOr(x, y))
        /\ NAdd(NAnd(x, y), NOr(x, y)) = NAdd(x, y)
        /\ y # Zero => NAdd(NMul(NDiv(x, y), y), NRem(x, y)) = x
=============================================================================
