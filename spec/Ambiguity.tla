----------------------------- MODULE Ambiguity ------------------------------
(***************************************************************************)
(* When a choice is ambiguous.                                             *)
(*                                                                         *)
(* A small regular fragment of the formats (bytes, sequences, choices,     *)
(* repetitions, slices, look-ahead) describes input strings.  W(f, N) are  *)
(* the inputs that consist of something f describes and of a rest from N   *)
(* (look-ahead may constrain the rest, so f alone has no language).  A     *)
(* choice between a and b before N is ambiguous iff W(a, N) and W(b, N)    *)
(* have an input in common; likewise another element of a repetition and   *)
(* what follows the repetition.  Compilation must refuse an ambiguous      *)
(* format, and must accept an unambiguous one that describes finitely many *)
(* inputs (look-ahead over the whole input decides); a decoder that was    *)
(* compiled must decode every input the format describes entirely, and     *)
(* whatever it decodes must be what the format describes.                  *)
(* Inputs are cut off at length Cut; repetitions are also pumped (Long)    *)
(* beyond any look-ahead.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Size,      \* constructors in a format
          Unary,     \* names of the constructors with one part
          Family,    \* "all": every format; "loops": choices between two loops with an end each
          Stride, Offset,  \* every how many-th format, from which one on
          Cut,       \* length of inputs considered
          Shards
VARIABLE i

Byte(bs) == [k |-> "byte", bs |-> bs, neg |-> FALSE]
Empty == [k |-> "tuple", fs |-> << >>]
Atoms == {Byte(<< 1 >>), Byte(<< 65 >>), Byte(<< 1, 65 >>), Empty}
Pair(a, b) == [k |-> "tuple", fs |-> << a, b >>]
(* branches carry different names, so that every choice is well-typed *)
V(l, f) == [k |-> "variant", l |-> l, f |-> f]
Or(a, b) == [k |-> "union", fs |-> << V("Aa", a), V("Bb", b) >>]
Num(n) == [k |-> "num", t |-> "u32", n |-> IF n = 0 THEN << >> ELSE << n >>]
Un(u, a) == CASE u = "rep" -> [k |-> "rep", f |-> a]
              [] u = "rep1" -> [k |-> "rep1", f |-> a]
              [] u = "count2" -> [k |-> "repc", e |-> Num(2), f |-> a]
              [] u = "opt2" -> [k |-> "repb", lo |-> Num(0), hi |-> Num(2), f |-> a]
              [] u = "one2" -> [k |-> "repb", lo |-> Num(1), hi |-> Num(2), f |-> a]
              [] u = "slice1" -> [k |-> "slice", e |-> Num(1), f |-> a]
              [] u = "slice2" -> [k |-> "slice", e |-> Num(2), f |-> a]
              [] u = "peek" -> [k |-> "peek", f |-> a]
              [] u = "peeknot" -> [k |-> "peeknot", f |-> a]

(* Fn: all formats with exactly n constructors.                            *)
(* They are sequences, for speed: no format is built twice.                *)
Prod(A, B, Op(_, _)) == TLCEval([k \in 1 .. (Len(A) * Len(B)) |-> Op(A[((k - 1) \div Len(B)) + 1], B[((k - 1) % Len(B)) + 1])])
Both(A, B) == Prod(A, B, Pair) \o Prod(A, B, Or)
AtomSeq == SetToSeq(Atoms)
UnarySeq == SetToSeq(Unary)
F1 == AtomSeq
F2 == Prod(UnarySeq, F1, Un)
F3 == Prod(UnarySeq, F2, Un) \o Both(F1, F1)
F4 == Prod(UnarySeq, F3, Un) \o Both(F1, F2) \o Both(F2, F1)
F5 == IF Size < 5 THEN << >> ELSE Prod(UnarySeq, F4, Un) \o Both(F1, F3) \o Both(F2, F2) \o Both(F3, F1)
F6 == IF Size < 6 THEN << >> ELSE Prod(UnarySeq, F5, Un) \o Both(F1, F4) \o Both(F2, F3) \o Both(F3, F2) \o Both(F4, F1)
(* Two loops, each with its own end. *)
Bytes1 == Atoms \ {Empty}
Loops == SetToSeq({Pair(Un(u, x), e) : u \in {"rep", "rep1"}, x \in Bytes1 \cup {Pair(a, b) : a \in Bytes1, b \in Bytes1},
                                        e \in Atoms})
All == IF Family = "loops" THEN Prod(Loops, Loops, Or) ELSE F1 \o F2 \o F3 \o F4 \o F5 \o F6

Sigma == {1, 65}
Short(X) == {x \in X : Len(x) <= Cut}
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<< >>} ELSE {<< b >> \o x : b \in Sigma, x \in Words(n - 1)}
WordsTo(n) == UNION {Words(m) : m \in 0 .. n}
Anything == WordsTo(Cut)

Nat2(e) == IF e.n = << >> THEN 0 ELSE e.n[1]
(* A part of an input that is examined on its own (a slice, look-ahead) is *)
(* matched by some prefix of it; a format with choices is only bound to    *)
(* find that prefix if it is the whole part.  So there are the inputs f    *)
(* may decode (may) and those it must.                                     *)
RECURSIVE Has(_, _)
Has(f, ks) == \/ f.k \in ks
              \/ f.k \in {"tuple", "union"} /\ \E j \in DOMAIN f.fs : Has(f.fs[j], ks)
              \/ f.k \notin {"tuple", "union", "byte"} /\ Has(f.f, ks)
Rigid(f) == ~Has(f, {"rep", "rep1", "repb", "union"})
RECURSIVE W(_, _, _), Loop(_, _, _, _), Upto(_, _, _, _, _)
Sole(f, X, may) == IF may \/ Rigid(f) THEN W(f, X, may) ELSE W(f, {<< >>}, may)
W(f, N, may) ==
    CASE f.k = "byte" -> Short({<< f.bs[j] >> \o s : j \in DOMAIN f.bs, s \in N})
      [] f.k = "tuple" -> IF f.fs = << >> THEN N ELSE W(f.fs[1], W(f.fs[2], N, may), may)
      [] f.k = "variant" -> W(f.f, N, may)
      [] f.k = "union" -> W(f.fs[1], N, may) \cup W(f.fs[2], N, may)
      [] f.k = "rep" -> Loop(f.f, N, N, may)
      [] f.k = "rep1" -> W(f.f, Loop(f.f, N, N, may), may)
      [] f.k = "repc" -> W(f.f, W(f.f, N, may), may)
      [] f.k = "repb" -> Upto(f.f, Nat2(f.lo), Nat2(f.hi), N, may)
      [] f.k = "slice" -> LET n == Nat2(f.e)
                          IN Short({x \o s : x \in Words(n) \cap Sole(f.f, WordsTo(n), may), s \in N})
      [] f.k = "peek" -> N \cap Sole(f.f, Anything, may)
      (* look-ahead takes a peeknot at the end of a peeknot for a match *)
      [] f.k = "peeknot" -> IF ~may /\ Has(f.f, {"peeknot"}) THEN {} ELSE N \ Sole(f.f, Anything, ~may)
(* inputs with any number of elements, then N *)
Loop(f, acc, N, may) == LET nx == N \cup W(f, acc, may) IN IF nx = acc THEN acc ELSE Loop(f, nx, N, may)
Upto(f, lo, hi, N, may) == IF hi = 0 THEN N
                           ELSE (IF lo = 0 THEN N ELSE {})
                                \cup W(f, Upto(f, IF lo = 0 THEN 0 ELSE lo - 1, hi - 1, N, may), may)

Looks(f) == Has(f, {"peek", "peeknot"})
RECURSIVE Longest(_)
Longest(f) == CASE f.k = "byte" -> 1
                [] f.k = "tuple" -> IF f.fs = << >> THEN 0 ELSE Longest(f.fs[1]) + Longest(f.fs[2])
                [] f.k = "union" -> IF Longest(f.fs[1]) > Longest(f.fs[2]) THEN Longest(f.fs[1]) ELSE Longest(f.fs[2])
                [] f.k = "repc" -> 2 * Longest(f.f)
                [] f.k = "repb" -> Nat2(f.hi) * Longest(f.f)
                [] f.k = "slice" -> Nat2(f.e)
                [] f.k \in {"peek", "peeknot"} -> 0
                [] f.k \in {"rep", "rep1"} -> 1000
                [] OTHER -> Longest(f.f)
RECURSIVE Finite(_), Nullable(_)
Finite(f) == CASE f.k \in {"rep", "rep1"} -> FALSE
               [] f.k \in {"tuple", "union"} -> \A j \in DOMAIN f.fs : Finite(f.fs[j])
               [] f.k = "byte" -> TRUE
               (* one decision procedure serves every iteration of a counted repetition, *)
               (* so it may be refused although each iteration is unambiguous            *)
               [] f.k \in {"repc", "repb"} -> ~Has(f.f, {"rep", "rep1", "repb", "union"}) /\ ~Nullable(f.f)
               (* look-ahead does not see the end of a slice *)
               [] f.k = "slice" -> Finite(f.f) /\ ~Looks(f.f) /\ Longest(f.f) <= Nat2(f.e)
               [] OTHER -> Finite(f.f)
(* A format that may match nothing must not be repeated indefinitely. *)
Nullable(f) == CASE f.k = "byte" -> FALSE
                 [] f.k = "tuple" -> \A j \in DOMAIN f.fs : Nullable(f.fs[j])
                 [] f.k = "union" -> \E j \in DOMAIN f.fs : Nullable(f.fs[j])
                 [] f.k \in {"rep", "peek", "peeknot"} -> TRUE
                 [] f.k = "repb" -> f.lo.n = << >> \/ Nullable(f.f)
                 [] f.k = "slice" -> FALSE
                 [] OTHER -> Nullable(f.f)
RECURSIVE Repeatable(_)
Repeatable(f) == CASE f.k \in {"rep", "rep1"} -> ~Nullable(f.f) /\ Repeatable(f.f)
                   [] f.k \in {"tuple", "union"} -> \A j \in DOMAIN f.fs : Repeatable(f.fs[j])
                   [] f.k = "byte" -> TRUE
                   [] OTHER -> Repeatable(f.f)

Disjoint(X, Y) == X \cap Y = {}
RECURSIVE Unamb(_, _, _), UnambUpto(_, _, _, _, _)
Unamb(f, N, may) ==
    CASE f.k = "byte" -> TRUE
      [] f.k = "tuple" -> IF f.fs = << >> THEN TRUE
                          ELSE Unamb(f.fs[1], W(f.fs[2], N, may), may) /\ Unamb(f.fs[2], N, may)
      [] f.k = "variant" -> Unamb(f.f, N, may)
      [] f.k = "union" -> /\ Disjoint(W(f.fs[1], N, may), W(f.fs[2], N, may))
                          /\ Unamb(f.fs[1], N, may)
                          /\ Unamb(f.fs[2], N, may)
      [] f.k \in {"rep", "rep1"} ->
            LET N2 == Loop(f.f, N, N, may)
            IN /\ Disjoint(W(f.f, N2, may), N)
               /\ Unamb(f.f, N2, may)
      [] f.k = "repc" -> Unamb(f.f, W(f.f, N, may), may) /\ Unamb(f.f, N, may)
      [] f.k = "repb" -> UnambUpto(f.f, Nat2(f.lo), Nat2(f.hi), N, may)
      [] f.k \in {"slice", "peek", "peeknot"} -> Unamb(f.f, {<< >>}, may) /\ (may /\ Looks(f.f) => Unamb(f.f, Anything, may))
UnambUpto(f, lo, hi, N, may) ==
    IF hi = 0 THEN TRUE
    ELSE LET l == IF lo = 0 THEN 0 ELSE lo - 1
             N2 == Upto(f, l, hi - 1, N, may)
         IN /\ lo = 0 => Disjoint(W(f, N2, may), N)
            /\ Unamb(f, N2, may)
            /\ UnambUpto(f, l, hi - 1, N, may)

(* Look-ahead may reach past the end of what is described: then the choice *)
(* has to be clear whatever follows.                                       *)
Verdict(f) == IF ~Repeatable(f) THEN "refuse"
              ELSE IF ~Unamb(f, {<< >>}, FALSE) THEN "refuse"
              ELSE IF Finite(f) /\ Unamb(f, {<< >>}, TRUE) /\ (Looks(f) => Unamb(f, Anything, TRUE)) THEN "accept"
              ELSE "either"

(* What may be decoded from an input: how many of its bytes.  Without      *)
(* look-ahead this is whether they are described.                          *)
Parts(f) == IF Has(f, {"peek", "peeknot", "slice"}) THEN UNION {{<< s, Len(s) - Len(r) >> : s \in W(f, {r}, TRUE)} : r \in Anything}
            ELSE {}

(* Described inputs in which loops go around many times. *)
Far == 90
Rep(x, n) == [j \in 1 .. (n * Len(x)) |-> x[((j - 1) % Len(x)) + 1]]
RECURSIVE Long(_)
Long(f) ==
    CASE f.k = "byte" -> {<< f.bs[j] >> : j \in DOMAIN f.bs}
      [] f.k = "tuple" -> IF f.fs = << >> THEN {<< >>} ELSE {x \o y : x \in Long(f.fs[1]), y \in Long(f.fs[2])}
      [] f.k = "variant" -> Long(f.f)
      [] f.k = "union" -> Long(f.fs[1]) \cup Long(f.fs[2])
      [] f.k = "rep" -> {<< >>} \cup {Rep(x, Far) : x \in {y \in W(f.f, {<< >>}, FALSE) : Len(y) \in 1 .. 2}}
      [] f.k = "rep1" -> {Rep(x, Far) : x \in {y \in W(f.f, {<< >>}, FALSE) : Len(y) \in 1 .. 2}}
      [] OTHER -> {}
Pumped(f) == IF Looks(f) \/ ~Repeatable(f) THEN {} ELSE {x \in Long(f) : Len(x) >= Far}

T == LET A == TLCEval(All) IN TLCEval([n \in 1 .. ((Len(A) - Offset + Stride - 1) \div Stride) |-> A[((n - 1) * Stride) + 1 + Offset]])
Emit(n) == LET f == T[n]
               v == Verdict(f)
           IN PrintT("AMB " \o ToJson([n |-> n, f |-> f, v |-> v, L |-> W(f, {<< >>}, FALSE), looks |-> Has(f, {"peek", "peeknot", "slice"}),
                                       R |-> IF v = "refuse" THEN {} ELSE Parts(f),
                                       P |-> IF v = "either" THEN Pumped(f) ELSE {}]))
Init == i \in {k \in 1 .. Shards : k <= Len(T)}
Next == /\ Emit(i)
        /\ i + Shards <= Len(T)
        /\ i' = i + Shards
Spec == Init /\ [][Next]_i
=============================================================================
