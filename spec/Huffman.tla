------------------------------ MODULE Huffman -------------------------------
(***************************************************************************)
(* Canonical prefix codes.  The code words, taken as binary fractions, lie *)
(* side by side from 0 upwards in the order of length, then symbol: the    *)
(* word of a symbol is the sum of the sizes 2^-length of the symbols       *)
(* before it.  The lengths form a code iff all sizes add up to at most 1.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaxBits == 16
Unit(l) == 2 ^ (MaxBits - l)                       \* the size of a word of length l, in units of 2^-MaxBits
RECURSIVE Place(_, _, _, _)
Place(lens, l, at, rows) ==                        \* places the symbols of length l, then the longer ones
    IF l > MaxBits THEN [ok |-> at <= 2 ^ MaxBits, rows |-> rows]
    ELSE LET syms == SelectSeq([s \in 1 .. Len(lens) |-> s - 1], LAMBDA s : lens[s + 1] = l)
         IN Place(lens, l + 1, at + Len(syms) * Unit(l), Append(rows, [first |-> at \div Unit(l), syms |-> syms]))
(* The code of a table of lengths.  rows[l]: the symbols with words of     *)
(* length l, which are numbered from first on; ok iff the lengths form a   *)
(* code.                                                                   *)
Code(lens) == Place(lens, 1, 0, << >>)
(* The word of length l with value w stands for a symbol, and for which.   *)
IsWord(c, l, w) == l > 0 /\ w >= c.rows[l].first /\ w < c.rows[l].first + Len(c.rows[l].syms)
SymbolOf(c, l, w) == c.rows[l].syms[w - c.rows[l].first + 1]
(* Lengths listed in the order of vals.                                    *)
InOrder(lens, vals) ==
    [s \in 1 .. Len(vals) |-> IF \E k \in DOMAIN lens : vals[k] = s - 1 THEN lens[CHOOSE k \in DOMAIN lens : vals[k] = s - 1] ELSE 0]

(* Bits of a byte sequence, least significant bit of each byte first.      *)
Bit(s, p) == (s[p \div 8 + 1] \div 2 ^ (p % 8)) % 2
RECURSIVE Num(_, _, _)
Num(s, p, n) == IF n = 0 THEN 0 ELSE Bit(s, p) + 2 * Num(s, p + 1, n - 1)
RECURSIVE Walk(_, _, _, _, _)
Walk(c, s, p, l, w) ==                             \* << symbol, next position >>, << >> if there is no such word
    IF IsWord(c, l, w) THEN << SymbolOf(c, l, w), p >>
    ELSE IF l = MaxBits \/ p >= 8 * Len(s) THEN << >>
    ELSE Walk(c, s, p + 1, l + 1, 2 * w + Bit(s, p))
Symbol(c, s, p) == Walk(c, s, p, 0, 0)
=============================================================================
