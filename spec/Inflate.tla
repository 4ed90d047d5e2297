------------------------------ MODULE Inflate -------------------------------
(***************************************************************************)
(* DEFLATE (RFC 1951) and the shipped run-length format: what a stream     *)
(* expands to, and the runs of the engines judged against it.              *)
(*                                                                         *)
(* A result is << "ok", bytes, bytes consumed >>, << "err", why >> for a   *)
(* stream that has to be refused, or << "any" >> for one that the RFC      *)
(* forbids and the shipped definition knowingly lets pass (wrong NLEN, the *)
(* unused symbols 286 and 287, lengths repeated past the end of the table, *)
(* a distance table that is no code but is never used).                    *)
(***************************************************************************)
EXTENDS Huffman, Json, TLC
CONSTANTS File, Shards
VARIABLE i

LenBase == << 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258 >>
LenExtra == << 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0 >>
DistBase == << 1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073,
               4097, 6145, 8193, 12289, 16385, 24577 >>
DistExtra == << 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13 >>
ClOrder == << 16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15 >>
FixedLens == [s \in 1 .. 288 |-> IF s <= 144 THEN 8 ELSE IF s <= 256 THEN 9 ELSE IF s <= 280 THEN 7 ELSE 8]
Fixed == Code(FixedLens)
FixedDist == Code([s \in 1 .. 32 |-> 5])
(* The tables are those of the RFC: the ranges lie side by side.           *)
ASSUME \A k \in 1 .. 27 : LenBase[k] + 2 ^ LenExtra[k] = LenBase[k + 1]
ASSUME \A k \in 1 .. 29 : DistBase[k] + 2 ^ DistExtra[k] = DistBase[k + 1]
ASSUME DistBase[30] + 2 ^ DistExtra[30] - 1 = 32768

Err(why) == << "err", why >>
Has(s, p, n) == p + n <= 8 * Len(s)

(* The bytes a reference stands for: they may overlap what they produce.   *)
Copy(out, len, dist) == [k \in 1 .. len |-> out[Len(out) - dist + ((k - 1) % dist) + 1]]

(* The symbols of one compressed block; << "ok", out, position >>.         *)
RECURSIVE Symbols(_, _, _, _, _)
Symbols(ll, dd, s, p, out) ==
    LET r == Symbol(ll, s, p)
    IN IF r = << >> THEN Err("no symbol")
       ELSE IF r[1] < 256 THEN Symbols(ll, dd, s, r[2], Append(out, r[1]))
       ELSE IF r[1] = 256 THEN << "ok", out, r[2] >>
       ELSE IF r[1] > 285 THEN << "any" >>
       ELSE LET k == r[1] - 256
                e == LenExtra[k]
            IN IF ~Has(s, r[2], e) THEN Err("short")
               ELSE IF ~dd.ok THEN Err("no code")
               ELSE LET len == LenBase[k] + Num(s, r[2], e)
                        q == Symbol(dd, s, r[2] + e)
                    IN IF q = << >> THEN Err("no distance")
                       ELSE IF q[1] > 29 THEN Err("reserved distance")
                       ELSE LET f == DistExtra[q[1] + 1]
                            IN IF ~Has(s, q[2], f) THEN Err("short")
                               ELSE LET dist == DistBase[q[1] + 1] + Num(s, q[2], f)
                                    IN IF dist > Len(out) THEN Err("far")
                                       ELSE Symbols(ll, dd, s, q[2] + f, out \o Copy(out, len, dist))

(* The lengths of the two tables of a dynamic block.                       *)
RECURSIVE Lengths(_, _, _, _, _)
Lengths(c, s, p, n, acc) ==
    IF Len(acc) = n THEN << "ok", acc, p >>
    ELSE IF Len(acc) > n THEN << "any" >>
    ELSE LET r == Symbol(c, s, p)
         IN IF r = << >> THEN Err("no length")
            ELSE IF r[1] < 16 THEN Lengths(c, s, r[2], n, Append(acc, r[1]))
            ELSE LET e == << 2, 3, 7 >>[r[1] - 15]
                     b == << 3, 3, 11 >>[r[1] - 15]
                 IN IF ~Has(s, r[2], e) THEN Err("short")
                    ELSE IF r[1] = 16 /\ acc = << >> THEN Err("nothing to repeat")
                    ELSE LET v == IF r[1] = 16 THEN acc[Len(acc)] ELSE 0
                         IN Lengths(c, s, r[2] + e, n, acc \o [k \in 1 .. b + Num(s, r[2], e) |-> v])

Stored(s, p0, out) ==
    LET p == 8 * ((p0 + 7) \div 8)
    IN IF ~Has(s, p, 32) THEN Err("short")
       ELSE LET len == Num(s, p, 16)
            IN IF ~Has(s, p + 32, 8 * len) THEN Err("short")
               ELSE IF Num(s, p + 16, 16) # 65535 - len THEN << "any" >>
               ELSE << "ok", out \o SubSeq(s, p \div 8 + 5, p \div 8 + 4 + len), p + 32 + 8 * len >>
Dynamic(s, p, out) ==
    IF ~Has(s, p, 14) THEN Err("short")
    ELSE LET hlit == Num(s, p, 5) + 257
             hdist == Num(s, p + 5, 5) + 1
             hclen == Num(s, p + 10, 4) + 4
         IN IF ~Has(s, p + 14, 3 * hclen) THEN Err("short")
            ELSE LET cl == Code(InOrder([k \in 1 .. hclen |-> Num(s, p + 14 + 3 * (k - 1), 3)], ClOrder))
                     ls == IF cl.ok THEN Lengths(cl, s, p + 14 + 3 * hclen, hlit + hdist, << >>) ELSE Err("no code")
                 IN IF ls[1] # "ok" THEN ls
                    ELSE LET ll == Code(SubSeq(ls[2], 1, hlit))
                             dd == Code(SubSeq(ls[2], hlit + 1, hlit + hdist))
                         IN IF ~ll.ok THEN Err("no code")
                            ELSE LET r == Symbols(ll, dd, s, ls[3], out)
                                 IN IF r[1] = "ok" /\ ~dd.ok THEN << "any" >> ELSE r
RECURSIVE Blocks(_, _, _)
Blocks(s, p, out) ==
    IF ~Has(s, p, 3) THEN Err("short")
    ELSE LET t == Num(s, p + 1, 2)
             r == CASE t = 0 -> Stored(s, p + 3, out)
                    [] t = 1 -> Symbols(Fixed, FixedDist, s, p + 3, out)
                    [] t = 2 -> Dynamic(s, p + 3, out)
                    [] t = 3 -> Err("reserved block")
         IN IF r[1] # "ok" THEN r
            ELSE IF Bit(s, p) = 1 THEN << "ok", r[2], (r[3] + 7) \div 8 >>
            ELSE Blocks(s, r[3], r[2])
Inflated(s) == Blocks(s, 0, << >>)

(* Run lengths: a style byte, then pairs of a count and a byte.            *)
RECURSIVE Runs(_, _, _)
Runs(s, p, out) == IF p > Len(s) THEN << "ok", out, Len(s) >>
                   ELSE IF p = Len(s) THEN Err("short")
                   ELSE Runs(s, p + 2, out \o [k \in 1 .. s[p] |-> s[p + 1]])
Expanded(s) == IF s = << >> \/ s[1] > 1 THEN Err("style") ELSE Runs(s, 2, << >>)

Recs == ndJsonDeserialize(File)
Fits(o, want) == CASE want[1] = "ok" -> o = want
                   [] want[1] = "err" -> o = << "err" >>
                   [] want[1] = "any" -> TRUE
Check(n) ==
    LET rec == Recs[n]
        want == IF rec.kind = "deflate" THEN Inflated(rec.in) ELSE Expanded(rec.in)
    IN (* what was encoded comes out *)
       /\ Assert(rec.plain = << >> \/ want = << "ok", rec.plain[1], Len(rec.in) >>, << "the model does not invert the encoder", rec.in, want >>)
       /\ PrintT("WHY " \o want[1] \o (IF want[1] = "err" THEN " " \o want[2] ELSE ""))
       /\ \A e \in {"int", "loc", "out"} :
             IF Fits(rec[e], want) THEN TRUE
             ELSE PrintT("BAD " \o ToJson([n |-> n, engine |-> e, kind |-> rec.kind, in |-> rec.in, got |-> rec[e], want |-> want]))

Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
Spec == Init /\ [][Next]_i
=============================================================================
