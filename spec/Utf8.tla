------------------------------- MODULE Utf8 ---------------------------------
(***************************************************************************)
(* UTF-8 (RFC 3629), stated from the encoder's side: Enc(cp) is the        *)
(* encoding of the scalar cp, and a byte sequence is well formed exactly   *)
(* if it is the encoding of a sequence of scalars.                         *)
(*                                                                         *)
(* Every line of File holds runs of one shipped text format: the input,    *)
(* what the interpreter did (int) and what the committed decoder did       *)
(* (out).  kind "char": one character; "char-nz": one character other than *)
(* U+0000; "string", "string-nz": as many as there are.  (out = "none": a  *)
(* format without a decoder of its own.)                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC, TLCExt
CONSTANTS File, Shards
VARIABLE i

Scalar(cp) == cp \in 0 .. 1114111 /\ cp \notin 55296 .. 57343
Cont(cp, k) == 128 + ((cp \div 64 ^ k) % 64)     \* the k-th continuation byte from the right
Enc(cp) ==
    CASE cp < 128 -> << cp >>
      [] cp < 2048 -> << 192 + cp \div 64, Cont(cp, 0) >>
      [] cp < 65536 -> << 224 + cp \div 4096, Cont(cp, 1), Cont(cp, 0) >>
      [] OTHER -> << 240 + cp \div 262144, Cont(cp, 2), Cont(cp, 1), Cont(cp, 0) >>

(* The only scalar whose encoding can be the n bytes of s from p on.       *)
Candidate(s, p, n) ==
    CASE n = 1 -> s[p]
      [] n = 2 -> (s[p] % 32) * 64 + (s[p + 1] % 64)
      [] n = 3 -> (s[p] % 16) * 4096 + (s[p + 1] % 64) * 64 + (s[p + 2] % 64)
      [] n = 4 -> (s[p] % 8) * 262144 + (s[p + 1] % 64) * 4096 + (s[p + 2] % 64) * 64 + (s[p + 3] % 64)
(* How many bytes the character at p has, 0 if there is none.              *)
Size(s, p, nz) ==
    LET N == {n \in 1 .. 4 : /\ p + n - 1 <= Len(s)
                             /\ LET cp == Candidate(s, p, n)
                                IN Scalar(cp) /\ Enc(cp) = SubSeq(s, p, p + n - 1) /\ ~(nz /\ cp = 0)}
    IN IF N = {} THEN 0 ELSE CHOOSE n \in N : TRUE
RECURSIVE Chars(_, _, _, _)
Chars(s, p, nz, acc) ==      \* all characters from p on, or << -1 >> if that is not well formed
    IF p > Len(s) THEN acc
    ELSE LET n == Size(s, p, nz)
         IN IF n = 0 THEN << -1 >> ELSE Chars(s, p + n, nz, Append(acc, Candidate(s, p, n)))

ASSUME \A cp \in {0, 1, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111} :
          /\ Size(Enc(cp), 1, FALSE) = Len(Enc(cp))
          /\ Candidate(Enc(cp), 1, Len(Enc(cp))) = cp

Recs == ndJsonDeserialize(File)
Limb(l) == IF l = << >> THEN 0 ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] + 4096 * l[2]
Text(v) == IF v[1] = "var" THEN (IF v[2] = "plain" THEN v[3] ELSE << "seq", << >> >>) ELSE v    \* text.maybe_gzip
Code(v) == IF v[1] = "char" THEN Limb(v[2]) ELSE -2
One(o, s, nz) ==
    LET n == Size(s, 1, nz)
    IN IF n = 0 THEN o = << "err" >>
       ELSE o[1] = "ok" /\ Code(o[2]) = Candidate(s, 1, n) /\ o[3] = n
(* A string that is followed by nothing takes all of a well-formed input.  *)
(* It cannot take all of any other.                                        *)
All(o, s, nz) ==
    LET cs == Chars(s, 1, nz, << >>)
    IN IF cs = << -1 >> THEN o[1] = "err" \/ (o[1] = "ok" /\ o[3] < Len(s))
       ELSE o[1] = "ok" /\ o[3] = Len(s) /\ Len(Text(o[2])[2]) = Len(cs) /\ \A k \in DOMAIN cs : Code(Text(o[2])[2][k]) = cs[k]
Good(kind, o, s) ==
    CASE kind = "char" -> One(o, s, FALSE)
      [] kind = "char-nz" -> One(o, s, TRUE)
      [] kind = "string" -> All(o, s, FALSE)
      [] kind = "string-nz" -> All(o, s, TRUE)

Check(n) ==
    LET rec == Recs[n]
    IN \A j \in 1 .. Len(rec.cases) :
          LET c == rec.cases[j]
          IN IF Good(rec.kind, c.int, c.in) /\ (c.out \in {c.int, << "none" >>} \/ Good(rec.kind, c.out, c.in)) THEN TRUE
             ELSE PrintT("BAD " \o ToJson([n |-> n, id |-> rec.id, in |-> c.in, out |-> c.out, int |-> c.int]))

Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
Spec == Init /\ [][Next]_i
=============================================================================
