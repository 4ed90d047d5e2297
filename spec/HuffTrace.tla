----------------------------- MODULE HuffTrace ------------------------------
(***************************************************************************)
(* Runs of the engines' Huffman decoders: k symbols read from the bits of  *)
(* each input with the code given by a table of lengths.  A table that is  *)
(* no code is refused.                                                     *)
(***************************************************************************)
EXTENDS Huffman, Json, TLC
CONSTANTS File, Shards
VARIABLE i

Recs == ndJsonDeserialize(File)
RECURSIVE Read(_, _, _, _, _)
Read(c, s, p, k, acc) ==
    IF k = 0 THEN << "ok", acc, (p + 7) \div 8 >>
    ELSE LET r == Symbol(c, s, p) IN IF r = << >> THEN << "err" >> ELSE Read(c, s, r[2], k - 1, Append(acc, r[1]))
(* Encoding the symbols gives the bits back: the code inverts itself.      *)
RECURSIVE Bits(_, _, _)
Bits(c, acc, p) == IF acc = << >> THEN p
                   ELSE LET l == CHOOSE l \in 1 .. MaxBits : \E k \in DOMAIN c.rows[l].syms : c.rows[l].syms[k] = Head(acc)
                        IN Bits(c, Tail(acc), p + l)
(* No word is the beginning of another.                                    *)
PrefixFree(c) == \A l \in 1 .. MaxBits, m \in 1 .. MaxBits : l < m => \A k \in DOMAIN c.rows[m].syms :
                    ~IsWord(c, l, (c.rows[m].first + k - 1) \div 2 ^ (m - l))
Check(n) ==
    LET rec == Recs[n]
        c == Code(IF rec.vals = << >> THEN rec.lens ELSE InOrder(rec.lens, rec.vals[1]))
    IN /\ Assert(c.ok => PrefixFree(c), "the model's code is not prefix-free")
       /\ \A j \in 1 .. Len(rec.cases) :
          LET x == rec.cases[j]
              want == IF c.ok THEN Read(c, x.in, 0, rec.k, << >>) ELSE << "err" >>
          IN /\ Assert(want[1] = "err" \/ (Bits(c, want[2], 0) + 7) \div 8 = want[3], "the model's code does not invert itself")
             /\ IF x.int = want /\ x.loc = want /\ x.gen = want THEN TRUE
                ELSE PrintT("BAD " \o ToJson([n |-> n, lens |-> rec.lens, vals |-> rec.vals, code |-> c.ok, in |-> x.in, want |-> want,
                                              int |-> x.int, loc |-> x.loc, gen |-> x.gen]))
Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
Spec == Init /\ [][Next]_i
=============================================================================
