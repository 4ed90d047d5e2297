------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Exact natural-number arithmetic beyond TLC's 32-bit integers.           *)
(* A number is the sequence of its base-4096 digits, least significant     *)
(* first, without leading zeros; zero is the empty sequence.  Equality of  *)
(* numbers is therefore equality of values.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE Bitwise

Base == 4096
Zero == << >>
One == << 1 >>

RECURSIVE Norm(_)
Norm(s) == IF s = << >> \/ s[Len(s)] # 0 THEN s ELSE Norm(SubSeq(s, 1, Len(s) - 1))

RECURSIVE NOf(_)
NOf(i) == IF i = 0 THEN << >> ELSE IF i < Base THEN << i >> ELSE << i % Base >> \o NOf(i \div Base)

(* The TLC integer a number denotes; anything of 2^24 or more is reported   *)
(* as Huge, which is larger than every window the models use.              *)
Huge == 1073741824
NInt(n) == IF Len(n) = 0 THEN 0
           ELSE IF Len(n) = 1 THEN n[1]
           ELSE IF Len(n) = 2 THEN n[1] + Base * n[2]
           ELSE Huge

Dig(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE CmpFrom(a, b, Len(a))
NLt(a, b) == NCmp(a, b) < 0
NLe(a, b) == NCmp(a, b) <= 0

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN << >> ELSE << c >>)
    ELSE LET s == Dig(a, i) + Dig(b, i) + c IN << s % Base >> \o AddFrom(a, b, i + 1, s \div Base)
NAdd(a, b) == IF Len(a) <= 1 /\ Len(b) <= 1 THEN NOf(Dig(a, 1) + Dig(b, 1)) ELSE AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
    IF i > Len(a) THEN << >>
    ELSE LET d == a[i] - Dig(b, i) - c
         IN IF d < 0 THEN << d + Base >> \o SubFrom(a, b, i + 1, 1) ELSE << d >> \o SubFrom(a, b, i + 1, 0)
(* a - b, for a >= b *)
NSub(a, b) == Norm(SubFrom(a, b, 1, 0))

RECURSIVE MulDig(_, _, _, _)
MulDig(a, d, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE << c >>)
    ELSE LET p == a[i] * d + c IN << p % Base >> \o MulDig(a, d, i + 1, p \div Base)
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) ==
    IF i > Len(b) THEN << >>
    ELSE LET rest == MulFrom(a, b, i + 1)
         IN NAdd(IF b[i] = 0 THEN << >> ELSE MulDig(a, b[i], 1, 0), IF rest = << >> THEN << >> ELSE << 0 >> \o rest)
NMul(a, b) == IF a = << >> \/ b = << >> THEN << >>
              ELSE IF Len(a) = 1 /\ Len(b) = 1 THEN NOf(a[1] * b[1])
              ELSE Norm(MulFrom(a, b, 1))

(* Largest digit d with d*b <= r, by bisection on lo..hi. *)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF NLe(NMul(b, NOf(mid)), r) THEN QDigit(r, b, mid, hi) ELSE QDigit(r, b, lo, mid - 1)
(* Long division: <<quotient digits (most significant first), remainder>>. *)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) ==
    IF i = 0 THEN << q, r >>
    ELSE LET r1 == Norm(<< a[i] >> \o r)
             d == IF NLt(r1, b) THEN 0 ELSE QDigit(r1, b, 0, Base - 1)
         IN DivFrom(a, b, i - 1, << d >> \o q, IF d = 0 THEN r1 ELSE NSub(r1, NMul(b, NOf(d))))
NDivMod(a, b) ==
    IF Len(a) <= 2 /\ Len(b) <= 2
    THEN << NOf(NInt(a) \div NInt(b)), NOf(NInt(a) % NInt(b)) >>
    ELSE LET qr == DivFrom(a, b, Len(a), << >>, << >>) IN << Norm(qr[1]), qr[2] >>
NDiv(a, b) == NDivMod(a, b)[1]
NRem(a, b) == NDivMod(a, b)[2]

MaxI(x, y) == IF x > y THEN x ELSE y
NAnd(a, b) == Norm([i \in 1 .. MaxI(Len(a), Len(b)) |-> Dig(a, i) & Dig(b, i)])
NOr(a, b) == Norm([i \in 1 .. MaxI(Len(a), Len(b)) |-> Dig(a, i) | Dig(b, i)])

RECURSIVE Zeros(_)
Zeros(k) == IF k = 0 THEN << >> ELSE << 0 >> \o Zeros(k - 1)
NPow2(k) == Zeros(k \div 12) \o << 2 ^ (k % 12) >>
NShl(a, k) == NMul(a, NPow2(k))
NShr(a, k) == IF a = << >> THEN << >> ELSE NDiv(a, NPow2(k))
(* a modulo 2^k *)
NLow(a, k) == LET full == k \div 12
                  cut == [i \in 1 .. (IF Len(a) < full + 1 THEN Len(a) ELSE full + 1) |->
                            IF i <= full THEN a[i] ELSE a[i] % (2 ^ (k % 12))]
              IN Norm(cut)
NFits(a, bits) == NLt(a, NPow2(bits))
NMin(a, b) == IF NLe(a, b) THEN a ELSE b
NMax(a, b) == IF NLe(a, b) THEN b ELSE a
=============================================================================
