----------------------------- MODULE FormatSem ------------------------------
(***************************************************************************)
(* Meaning of doodle formats: which results a decoder may give on a window *)
(* of input.                                                               *)
(*                                                                         *)
(* P(f, env, w, pos, tail) is the set of results allowed for format f at   *)
(* position pos of window w = [b |-> elements, e |-> end, lo |-> start], an *)
(* element is a byte, or a bit inside a bits region:                       *)
(*    <<"ok", value, pos', q>> success, next position; look-ahead sees the *)
(*                             elements consumed up to q only (constructs  *)
(*                             it does not look into, or takes for wider   *)
(*                             than they are, start at q)                  *)
(*    <<"fail", p, lex>>       failure; lex: element p (or the end of the  *)
(*                             window at p) was not one the format accepts *)
(*                             and look-ahead can tell                     *)
(*    <<"undef">>              an expression had no value                  *)
(* A format without alternatives has exactly one result.  Alternatives and *)
(* repetitions are resolved by look-ahead, whose depth is not specified;   *)
(* what is specified is                                                    *)
(*  - a result is only ever one of some branch / some repeat count,        *)
(*  - a branch that look-ahead can tell apart is not chosen in vain        *)
(*    (Blames),                                                            *)
(*  - whenever the window can be consumed entirely, it is (Commit), so no  *)
(*    input the format describes is rejected by a premature choice,        *)
(*  - where nothing constrains what follows (tail), the choice that        *)
(*    consumes more input wins.                                            *)
(* Module items are given by the constant-like operator Items.             *)
(***************************************************************************)
EXTENDS ExprSem

Far == 1000000
Ok(v, p) == << "ok", v, p, Far >>
OkB(v, p, q) == << "ok", v, p, q >>
Fail(p) == << "fail", p, FALSE >>
LexFail(p) == << "fail", p, TRUE >>
IsOk(r) == r[1] = "ok"
IsFail(r) == r[1] = "fail"
UndefR == << "undef" >>
IsUndef(r) == r[1] = "undef"
Min2(a, b) == IF a < b THEN a ELSE b

(* r after a success that look-ahead could follow up to q. *)
After(q, r) == IF q = Far THEN r
               ELSE IF IsOk(r) THEN OkB(r[2], r[3], Min2(q, r[4]))
               ELSE IF IsFail(r) THEN Fail(r[2]) ELSE r
Then(R, K(_, _)) == UNION {IF IsOk(r) THEN {After(r[4], t) : t \in K(r[2], r[3])} ELSE {r} : r \in R}
MapOk(R, K(_, _)) == {IF IsOk(r) THEN After(r[4], K(r[2], r[3])) ELSE r : r \in R}
(* Failures look-ahead does not foresee: it takes more than is accepted. *)
Opaque(R) == {IF IsFail(r) THEN Fail(r[2]) ELSE r : r \in R}
(* Look-ahead does not look into the construct starting at pos at all. *)
Blind(R, pos) == {IF IsOk(r) THEN OkB(r[2], r[3], pos) ELSE IF IsFail(r) THEN Fail(r[2]) ELSE r : r \in R}

(* Results of parsing something other than the input at pos. *)
Inner(R, pos) == {IF IsOk(r) THEN Ok(r[2], pos) ELSE IF IsFail(r) THEN Fail(pos) ELSE r : r \in R}

(* Formats whose every failure is one look-ahead can foresee.             *)
PreciseKinds == {"byte", "tuple", "seq", "variant", "union", "rep", "rep1", "repc", "map", "compute", "let",
                 "letf", "mseq", "hint", "lifto", "item", "letview", "pos"}
RECURSIVE Precise(_, _)
Precise(M, f) ==
    /\ f.k \in PreciseKinds
    /\ f.k \in {"tuple", "seq", "union", "lifto"} => \A i \in DOMAIN f.fs : Precise(M, f.fs[i])
    /\ f.k \in {"variant", "rep", "rep1", "repc", "map", "let", "letf", "mseq", "hint", "letview"} => Precise(M, f.f)
    /\ f.k \in {"letf", "mseq"} => Precise(M, f.g)
    /\ f.k = "repc" => f.e.k = "num"
    /\ f.k = "item" => Precise(M, M[f.i + 1].f)

(* Formats look-ahead may take for narrower than they are (it disregards   *)
(* fallbacks, takes what a peeknot or slice holds for complete) or, for a  *)
(* nondet, for greedier than it is, so that a choice may reject such a     *)
(* branch; or whose extent depends on a value, which look-ahead takes for  *)
(* any of those possible, and may follow one of them into a dead end.      *)
RECURSIVE Lossy(_, _)
Lossy(M, f) ==
    \/ f.k \in {"permit", "peeknot", "slice", "nondet", "maybe", "match", "foreach"}
    \/ f.k \in {"tuple", "seq", "union", "lifto"} /\ \E i \in DOMAIN f.fs : Lossy(M, f.fs[i])
    \/ f.k \in {"letf", "mseq"} /\ Lossy(M, f.g)
    \/ f.k = "item" /\ Lossy(M, M[f.i + 1].f)
    \/ f.k \notin {"tuple", "seq", "union", "nondet", "lifto", "match", "item", "permit", "slice", "peeknot", "maybe", "foreach"} /\ "f" \in DOMAIN f /\ Lossy(M, f.f)

(* Formats with a choice that may depend on what follows. *)
RECURSIVE HasChoice(_, _)
HasChoice(M, f) ==
    \/ f.k \in {"union", "rep", "rep1", "repb"}
    \/ f.k \in {"tuple", "seq", "nondet", "lifto"} /\ \E i \in DOMAIN f.fs : HasChoice(M, f.fs[i])
    \/ f.k = "match" /\ \E i \in DOMAIN f.bs : HasChoice(M, f.bs[i][2])
    \/ f.k \in {"letf", "mseq"} /\ HasChoice(M, f.g)
    \/ f.k = "item" /\ HasChoice(M, M[f.i + 1].f)
    \/ f.k \notin {"tuple", "seq", "nondet", "lifto", "match", "item"} /\ "f" \in DOMAIN f /\ HasChoice(M, f.f)
(* The choices in f may fail for a following g look-ahead takes for        *)
(* narrower than it is.                                                    *)
Strand(M, f, g, pos) == IF Lossy(M, g) /\ HasChoice(M, f) THEN {Fail(pos)} ELSE {}

(* Formats in which every choice is made with full knowledge of what may   *)
(* follow it, even where look-ahead takes more than is accepted.           *)
CompleteKinds == PreciseKinds \cup {"repb", "maybe", "foreach"}
RECURSIVE MayBeEmpty(_, _)
MayBeEmpty(M, f) ==
    CASE f.k = "byte" -> FALSE
      [] f.k \in {"tuple", "seq"} -> \A i \in DOMAIN f.fs : MayBeEmpty(M, f.fs[i])
      [] f.k = "union" -> \E i \in DOMAIN f.fs : MayBeEmpty(M, f.fs[i])
      [] f.k \in {"variant", "map", "let", "letview", "hint", "rep1"} -> MayBeEmpty(M, f.f)
      [] f.k \in {"letf", "mseq"} -> MayBeEmpty(M, f.f) /\ MayBeEmpty(M, f.g)
      [] f.k = "item" -> MayBeEmpty(M, M[f.i + 1].f)
      [] OTHER -> TRUE
RECURSIVE Complete(_, _)
Complete(M, f) ==
    /\ f.k \in CompleteKinds
    /\ f.k \in {"tuple", "seq", "union", "lifto"} => \A i \in DOMAIN f.fs : Complete(M, f.fs[i])
    /\ f.k \in {"variant", "rep", "rep1", "repc", "repb", "maybe", "foreach", "map", "let", "letf", "mseq", "hint", "letview"} => Complete(M, f.f)
    /\ f.k \in {"letf", "mseq"} => Complete(M, f.g)
    /\ f.k = "repc" => f.e.k = "num"
    /\ f.k = "repb" => f.lo.k = "num" /\ f.hi.k = "num"
    /\ f.k = "foreach" => ~MayBeEmpty(M, f.f)
    /\ f.k = "item" => Complete(M, M[f.i + 1].f)

(* A decoder that has committed to a window: if the window can be used up, *)
(* it is.                                                                  *)
Commit(M, f, R, end) ==
    LET full == {r \in R : IsOk(r) /\ r[3] = end}
    IN IF full # {} /\ Complete(M, f) THEN full \cup {r \in R : IsUndef(r)} ELSE R

OkV(v, p) == IF v = Undef THEN UndefR ELSE Ok(v, p)

MaxReps == 40
MaxCount == 600

-----------------------------------------------------------------------------
(* Canonical Huffman codes (RFC 1951, 3.2.2): symbols of equal length get  *)
(* consecutive codes in symbol order, shorter codes come first.            *)
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
MaxLen(lens) == LET S == {lens[i] : i \in DOMAIN lens} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Kraft(lens) == LET m == MaxLen(lens)
               IN SumSeq([i \in DOMAIN lens |-> IF lens[i] = 0 THEN 0 ELSE 2 ^ (m - lens[i])], 1)
ValidCode(lens) == MaxLen(lens) \in 1 .. 20 /\ Kraft(lens) <= 2 ^ MaxLen(lens)
CountLen(lens, k) == Cardinality({i \in DOMAIN lens : lens[i] = k})
(* The code: the symbols of each length in order, and the first code.      *)
RECURSIVE FirstCodes(_, _, _, _)
FirstCodes(lens, k, m, acc) == IF k > m THEN acc
                               ELSE FirstCodes(lens, k + 1, m, Append(acc, IF k = 1 THEN 0 ELSE 2 * (acc[k - 1] + CountLen(lens, k - 1))))
CodeBook(lens) == LET m == MaxLen(lens)
                      all == [i \in DOMAIN lens |-> i]
                  IN [max |-> m, first |-> FirstCodes(lens, 1, m, << >>),
                      syms |-> [k \in 1 .. m |-> SelectSeq(all, LAMBDA i : lens[i] = k)]]
(* The table of a dynamic format: code length of each symbol. *)
HuffLens(ls, vs) ==
    IF vs = << >> THEN ls
    ELSE LET vals == vs[1]
         IN [s \in 1 .. Len(vals) |->
               LET I == {i \in 1 .. Len(ls) : vals[i] = s - 1}
               IN IF I = {} THEN 0 ELSE ls[CHOOSE i \in I : \A j \in I : j <= i]]
RECURSIVE HuffWalk(_, _, _, _, _)
HuffWalk(book, w, pos, n, code) ==
    IF n > 0 /\ code >= book.first[n] /\ code < book.first[n] + Len(book.syms[n])
    THEN Ok(<< "u16", NOf(book.syms[n][code - book.first[n] + 1] - 1) >>, pos + n)
    ELSE IF n = book.max \/ pos + n >= w.e THEN Fail(pos + n)
    ELSE HuffWalk(book, w, pos, n + 1, 2 * code + w.b[pos + n + 1])

(* Elements of a byte sequence as bits, least significant first. *)
BitsOf(bs) == [i \in 1 .. (8 * Len(bs)) |-> (bs[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2]

InSet(f, b) == IF f.neg THEN \A i \in DOMAIN f.bs : f.bs[i] # b ELSE \E i \in DOMAIN f.bs : f.bs[i] = b

(* Views: a window and a position in it; Undef-like << >> when an offset   *)
(* does not fit.                                                           *)
(* A count or offset: any integer that is not negative. *)
Count(e, env) == LET v == Eval(e, env)
                 IN IF v[1] # "numeric" THEN v ELSE IF v[2][1] = 1 THEN << "u64", v[2][2] >> ELSE Undef
RECURSIVE EvalView(_, _)
EvalView(v, env) ==
    IF v.k = "var" THEN << "view", env.w[v.l] >>
    ELSE LET b == EvalView(v.v, env)  o == Count(v.e, env)
         IN IF b[1] # "view" THEN b
            ELSE IF o = Undef THEN << "undef" >>
            ELSE LET p == b[2].p + NInt(o[2])
                 IN IF p > b[2].w.e THEN << "none" >> ELSE << "view", [w |-> b[2].w, p |-> p] >>

RECURSIVE P(_, _, _, _, _, _)
RECURSIVE PTuple(_, _, _, _, _, _, _, _)
RECURSIVE PRepeat(_, _, _, _, _, _, _)
RECURSIVE PBetween(_, _, _, _, _, _, _, _, _)
RECURSIVE PCount(_, _, _, _, _, _, _)
RECURSIVE PUntilLast(_, _, _, _, _, _, _)
RECURSIVE PUntilSeq(_, _, _, _, _, _, _)
RECURSIVE PAccum(_, _, _, _, _, _, _, _)
RECURSIVE PForEach(_, _, _, _, _, _, _, _)

(* The results of f where its failure is not the end: a choice in f may    *)
(* also fail because what comes after f does not fit.                      *)
PFoll(M, f, env, w, pos, tail) ==
    P(M, f, env, w, pos, tail) \cup (IF ~tail /\ HasChoice(M, f) THEN {Fail(pos)} ELSE {})

PTuple(M, fs, i, env, w, pos, tail, acc) ==
    IF i > Len(fs) THEN {Ok(acc, pos)}
    ELSE Then(P(M, fs[i], env, w, pos, tail /\ i = Len(fs)),
              LAMBDA v, p : PTuple(M, fs, i + 1, env, w, p, tail, Append(acc, v)))
         \cup (IF \E j \in (i + 1) .. Len(fs) : Strand(M, fs[i], fs[j], pos) # {} THEN {Fail(pos)} ELSE {})

(* f* from pos.  Stopping is allowed anywhere the continuation may want it *)
(* (where nothing follows: only where no further element is there), and    *)
(* failing is allowed only if a further element begins here but is not     *)
(* completed.                                                              *)
PRepeat(M, f, env, w, pos, tail, acc) ==
    LET R == P(M, f, env, w, pos, FALSE)
        some == \E r \in R : IsOk(r) /\ r[3] > pos
        prec == Precise(M, f)
        stop == IF tail /\ prec /\ some /\ (\A r \in R : IsOk(r)) THEN {} ELSE {Ok(<< "seq", acc >>, pos)}
        broke == {r \in R : IsUndef(r) \/ (IsFail(r) /\ (~prec \/ ~r[3] \/ r[2] > pos))}
        more == UNION {{After(r[4], t) : t \in PRepeat(M, f, env, w, r[3], tail, Append(acc, r[2]))} : r \in {q \in R : IsOk(q) /\ q[3] > pos}}
    IN stop \cup broke \cup more \cup (IF Lossy(M, f) THEN {Fail(pos)} ELSE {})

PBetween(M, f, lo, hi, env, w, pos, tail, acc) ==
    IF Len(acc) = hi THEN {Ok(<< "seq", acc >>, pos)}
    ELSE LET R == P(M, f, env, w, pos, FALSE)
             enough == Len(acc) >= lo
             some == \E r \in R : IsOk(r)
             prec == Precise(M, f)
             stop == IF ~enough \/ (tail /\ prec /\ some /\ (\A r \in R : IsOk(r))) THEN {} ELSE {Ok(<< "seq", acc >>, pos)}
             broke == {r \in R : IsUndef(r) \/ (IsFail(r) /\ (~prec \/ ~enough \/ ~r[3] \/ r[2] > pos))}
             more == UNION {{After(r[4], t) : t \in PBetween(M, f, lo, hi, env, w, r[3], tail, Append(acc, r[2]))} : r \in {q \in R : IsOk(q)}}
             (* look-ahead also considers stopping short of lo, if what follows goes on for longer *)
             short == IF ~enough /\ ~tail THEN {Fail(pos)} ELSE {}
         IN stop \cup broke \cup more \cup short \cup (IF Lossy(M, f) THEN {Fail(pos)} ELSE {})

PCount(M, f, n, env, w, pos, acc) ==
    IF Len(acc) = n THEN {Ok(<< "seq", acc >>, pos)}
    ELSE IF Len(acc) > MaxCount THEN {UndefR}      \* not judged: thousands of elements without any input
    ELSE Then(P(M, f, env, w, pos, FALSE), LAMBDA v, p : PCount(M, f, n, env, w, p, Append(acc, v)))
         \cup (IF Len(acc) < n - 1 THEN Strand(M, f, f, pos) ELSE {})

PUntilLast(M, f, x, env, w, pos, acc) ==
    IF Len(acc) > MaxReps THEN {UndefR}
    ELSE Then(P(M, f, env, w, pos, FALSE), LAMBDA v, p :
            LET d == Lam(x, env, v)
            IN IF d = Undef THEN {UndefR}
               ELSE IF d[2] THEN {Ok(<< "seq", Append(acc, v) >>, p)}
               ELSE PUntilLast(M, f, x, env, w, p, Append(acc, v)))

PUntilSeq(M, f, x, env, w, pos, acc) ==
    IF Len(acc) > MaxReps THEN {UndefR}
    ELSE Then(P(M, f, env, w, pos, FALSE), LAMBDA v, p :
            LET d == Lam(x, env, << "seq", Append(acc, v) >>)
            IN IF d = Undef THEN {UndefR}
               ELSE IF d[2] THEN {Ok(<< "seq", Append(acc, v) >>, p)}
               ELSE PUntilSeq(M, f, x, env, w, p, Append(acc, v)))

PAccum(M, f, env, w, pos, a, acc, dummy) ==
    IF Len(acc) > MaxReps \/ a = Undef THEN {UndefR}
    ELSE LET d == Lam(f.done, env, << "tup", << a, << "seq", acc >> >> >>)
         IN IF d = Undef THEN {UndefR}
            ELSE IF d[2] THEN {Ok(<< "tup", << a, << "seq", acc >> >> >>, pos)}
            ELSE Then(P(M, f.f, env, w, pos, FALSE), LAMBDA v, p :
                    PAccum(M, f, env, w, p, Lam(f.upd, env, << "tup", << a, v >> >>), Append(acc, v), dummy))

PForEach(M, f, xs, i, env, w, pos, acc) ==
    IF i > Len(xs) THEN {Ok(<< "seq", acc >>, pos)}
    ELSE Then(P(M, f.f, BindV(env, f.l, xs[i]), w, pos, FALSE),
              LAMBDA v, p : PForEach(M, f, xs, i + 1, env, w, p, Append(acc, v)))

(* Alternatives told apart by look-ahead.  Rs[i] are the results of branch *)
(* i.  A failing branch j can be blamed for the whole only if it could not *)
(* be ruled out by the elements look-ahead sees of a succeeding branch.    *)
Seen(r) == Min2(r[3], r[4])
Alternatives(Rs, tail) ==
    LET D == DOMAIN Rs
        oks == UNION {{<< i, r >> : r \in {q \in Rs[i] : IsOk(q)}} : i \in D}
        live == IF tail THEN {o \in oks : ~(\E q \in oks : q[1] # o[1] /\ o[2][4] = Far /\ Seen(q[2]) > o[2][3])} ELSE oks
        blames == UNION {{r \in Rs[j] : IsFail(r) /\
                            (oks = {} \/ (\E o \in oks : o[1] = j) \/
                             (\E o \in oks : o[1] # j /\ (~r[3] \/ r[2] > Seen(o[2]))))} : j \in D}
        undefs == UNION {{r \in Rs[j] : IsUndef(r)} : j \in D}
    IN {o[2] : o \in live} \cup blames \cup undefs

(* Ordered choice: the first branch that succeeds. *)
RECURSIVE Ordered(_, _, _)
Ordered(Rs, i, pos) ==
    IF i > Len(Rs) THEN {Fail(pos)}
    ELSE {r \in Rs[i] : ~IsFail(r)} \cup (IF \E r \in Rs[i] : IsFail(r) THEN Ordered(Rs, i + 1, pos) ELSE {})

P(M, f, env, w, pos, tail) ==
    CASE f.k = "byte" -> IF pos >= w.e \/ ~InSet(f, w.b[pos + 1]) THEN {LexFail(pos)} ELSE {Ok(U8(w.b[pos + 1]), pos + 1)}
      [] f.k = "tuple" -> MapOk(PTuple(M, f.fs, 1, env, w, pos, tail, << >>), LAMBDA v, p : Ok(<< "tup", v >>, p))
      [] f.k = "letf" -> Then(P(M, f.f, env, w, pos, FALSE), LAMBDA v, p : P(M, f.g, BindV(env, f.l, v), w, p, tail))
                          \cup Strand(M, f.f, f.g, pos)
      [] f.k = "mseq" -> Then(P(M, f.f, env, w, pos, FALSE), LAMBDA v, p : P(M, f.g, env, w, p, tail))
                          \cup Strand(M, f.f, f.g, pos)
      [] f.k = "compute" -> {OkV(Eval(f.e, env), pos)}
      [] f.k = "map" -> MapOk(P(M, f.f, env, w, pos, tail), LAMBDA v, p : OkV(Lam(f.x, env, v), p))
      [] f.k = "where" -> MapOk(P(M, f.f, env, w, pos, tail), LAMBDA v, p :
                             LET c == Lam(f.x, env, v)
                             IN IF c = Undef THEN UndefR ELSE IF c[2] \/ ~f.strict THEN Ok(v, p) ELSE Fail(p))
      [] f.k = "union" -> Alternatives([i \in 1 .. Len(f.fs) |-> P(M, f.fs[i], env, w, pos, tail)], tail)
                           \cup (IF \E i \in 1 .. Len(f.fs) : Lossy(M, f.fs[i]) THEN {Fail(pos)} ELSE {})
      [] f.k = "nondet" -> Blind(Ordered([i \in 1 .. Len(f.fs) |-> PFoll(M, f.fs[i], env, w, pos, tail)], 1, pos), pos)
      [] f.k = "variant" -> MapOk(P(M, f.f, env, w, pos, tail), LAMBDA v, p : Ok(<< "var", f.l, v >>, p))
      [] f.k = "seq" -> MapOk(PTuple(M, f.fs, 1, env, w, pos, tail, << >>), LAMBDA v, p : Ok(<< "seq", v >>, p))
      [] f.k = "rep" -> PRepeat(M, f.f, env, w, pos, tail, << >>)
      [] f.k = "rep1" -> Then(P(M, f.f, env, w, pos, FALSE), LAMBDA v, p : PRepeat(M, f.f, env, w, p, tail, << v >>))
      [] f.k = "repc" -> LET n == Count(f.e, env)
                         IN IF n = Undef THEN {UndefR} ELSE IF f.e.k = "num" THEN PCount(M, f.f, NInt(n[2]), env, w, pos, << >>)
                            ELSE Blind(PCount(M, f.f, NInt(n[2]), env, w, pos, << >>), pos)
      [] f.k = "repb" -> LET lo == Count(f.lo, env)  hi == Count(f.hi, env)
                         IN PBetween(M, f.f, NInt(lo[2]), NInt(hi[2]), env, w, pos, tail, << >>)
      [] f.k = "repul" -> Blind(PUntilLast(M, f.f, f.x, env, w, pos, << >>), pos)
      [] f.k = "repus" -> Blind(PUntilSeq(M, f.f, f.x, env, w, pos, << >>), pos)
      [] f.k = "accum" -> Blind(PAccum(M, f, env, w, pos, Eval(f.init, env), << >>, 0), pos)
      [] f.k = "foreach" -> LET xs == Eval(f.e, env)
                            IN IF xs = Undef THEN {UndefR} ELSE Blind(PForEach(M, f, xs[2], 1, env, w, pos, << >>), pos)
      [] f.k = "maybe" -> LET c == Eval(f.e, env)
                          IN IF c = Undef THEN {UndefR}
                             ELSE IF c[2] THEN Blind(MapOk(P(M, f.f, env, w, pos, tail), LAMBDA v, p : Ok(<< "opt", << v >> >>, p)), pos)
                             ELSE {OkB(<< "opt", << >> >>, pos, pos)}
      [] f.k = "peek" -> Blind(MapOk(Commit(M, f.f, P(M, f.f, env, w, pos, TRUE), w.e), LAMBDA v, p : Ok(v, pos)), pos)
      [] f.k = "peeknot" -> {IF IsOk(r) THEN Fail(pos) ELSE IF IsFail(r) THEN OkB(Unit, pos, pos) ELSE r :
                               r \in Commit(M, f.f, P(M, f.f, env, w, pos, TRUE), w.e)}
      [] f.k = "slice" -> LET n == Count(f.e, env)
                          IN IF n = Undef THEN {UndefR}
                             ELSE LET q == pos + NInt(n[2])
                                  IN IF q > w.e THEN {Fail(pos)}
                                     ELSE Blind(MapOk(Commit(M, f.f, P(M, f.f, env, [w EXCEPT !.e = q], pos, TRUE), q),
                                                      LAMBDA v, p : Ok(v, q)), pos)
      [] f.k = "bits" -> LET bs == BitsOf(SubSeq(w.b, pos + 1, w.e))
                             n == Len(bs)
                         IN Blind(MapOk(Commit(M, f.f, P(M, f.f, env, [b |-> bs, e |-> n, lo |-> 0], 0, TRUE), n),
                                        LAMBDA v, p : Ok(v, w.e - ((n - p) \div 8))), pos)
      [] f.k = "reloff" -> LET a == Count(f.base, env)  o == Count(f.off, env)
                           IN IF a = Undef \/ o = Undef THEN {UndefR}
                              ELSE LET q == NInt(NAdd(a[2], o[2]))
                                   IN IF q > w.e \/ q < w.lo THEN {Fail(pos)}    \* a view is a window: nothing before it
                                      ELSE Blind(MapOk(Commit(M, f.f, P(M, f.f, env, w, q, TRUE), w.e), LAMBDA v, p : Ok(v, pos)), pos)
      [] f.k = "let" -> LET v == Eval(f.e, env)
                        IN IF v = Undef THEN {UndefR} ELSE P(M, f.f, BindV(env, f.l, v), w, pos, tail)
      [] f.k = "match" -> LET x == Eval(f.e, env)
                          IN IF x = Undef THEN {UndefR}
                             ELSE LET m == FirstMatch(f.bs, 1, x, env)
                                  IN IF m = << >> THEN {UndefR} ELSE Blind(P(M, f.bs[m[1]][2], m[2], w, pos, tail), pos)
      [] f.k = "dyn" -> LET ls == Eval(f.len, env)
                            vs == [i \in 1 .. Len(f.vals) |-> Eval(f.vals[i], env)]
                            ints(s) == [i \in 1 .. Len(s[2]) |-> NInt(s[2][i][2])]
                        IN IF ls = Undef \/ (\E i \in DOMAIN vs : vs[i] = Undef) THEN {UndefR}
                           ELSE LET lens == HuffLens(ints(ls), [i \in DOMAIN vs |-> ints(vs[i])])
                                IN IF ~ValidCode(lens) THEN {UndefR}
                                   ELSE P(M, f.f, BindD(env, f.l, CodeBook(lens)), w, pos, tail)
      [] f.k = "apply" -> Blind({HuffWalk(env.d[f.l], w, pos, 0, 0)}, pos)
      [] f.k = "pos" -> {Ok(<< "u64", NOf(pos) >>, pos)}
      [] f.k = "eoi" -> IF pos >= w.e THEN {OkB(Unit, pos, pos)} ELSE {Fail(pos)}
      [] f.k = "fail" -> {Fail(pos)}
      [] f.k = "skip" -> {OkB(Unit, w.e, pos)}
      [] f.k = "align" -> LET q == pos + ((f.n - (pos % f.n)) % f.n) IN IF q > w.e THEN {Fail(pos)} ELSE {OkB(Unit, q, pos)}
      [] f.k = "decbytes" -> LET x == Eval(f.e, env)
                             IN IF x = Undef THEN {UndefR}
                                ELSE LET bs == [i \in 1 .. Len(x[2]) |-> NInt(x[2][i][2])]
                                     IN Inner(Commit(M, f.f, P(M, f.f, env, [b |-> bs, e |-> Len(bs), lo |-> 0], 0, TRUE), Len(bs)), pos)
      [] f.k = "hint" -> P(M, f.f, env, w, pos, tail)
      [] f.k = "lifto" -> IF f.fs = << >> THEN {Ok(<< "opt", << >> >>, pos)}
                          ELSE MapOk(P(M, f.fs[1], env, w, pos, tail), LAMBDA v, p : Ok(<< "opt", << v >> >>, p))
      [] f.k = "letview" -> P(M, f.f, BindW(env, f.l, [w |-> w, p |-> pos]), w, pos, tail)
      [] f.k = "capture" -> LET v == EvalView(f.v, env)  n == Count(f.e, env)
                            IN IF n = Undef \/ v[1] = "undef" THEN {UndefR}
                               ELSE IF v[1] = "none" \/ v[2].p + NInt(n[2]) > v[2].w.e THEN {Fail(pos)}
                               ELSE {Ok(<< "seq", [i \in 1 .. NInt(n[2]) |-> U8(v[2].w.b[v[2].p + i])] >>, pos)}
      [] f.k = "readarr" -> LET v == EvalView(f.v, env)  n == Count(f.e, env)
                                sz == Width(f.t) \div 8
                            IN IF n = Undef \/ v[1] = "undef" THEN {UndefR}
                               ELSE IF v[1] = "none" \/ v[2].p + sz * (IF NInt(n[2]) = Huge THEN 16777216 ELSE NInt(n[2])) > v[2].w.e
                               THEN {Fail(pos)}
                               ELSE {Ok(<< "seq", [i \in 1 .. NInt(n[2]) |->
                                          << f.t, FromBytes([j \in 1 .. sz |-> NOf(v[2].w.b[v[2].p + sz * (i - 1) + j])], Zero) >>] >>, pos)}
      [] f.k = "reify" -> LET v == EvalView(f.v, env)
                          IN IF v[1] = "undef" THEN {UndefR} ELSE IF v[1] = "none" THEN {Fail(pos)}
                             ELSE {Ok(<< "view", v[2].p >>, pos)}
      [] f.k = "fromview" -> LET v == EvalView(f.v, env)
                             IN IF v[1] = "undef" THEN {UndefR} ELSE IF v[1] = "none" THEN {Fail(pos)}
                                ELSE Inner(Commit(M, f.f, P(M, f.f, env, [v[2].w EXCEPT !.lo = v[2].p], v[2].p, TRUE), v[2].w.e), pos)
      [] f.k = "phantom" -> {OkB(<< "phantom" >>, pos, pos)}
      [] f.k = "permit" -> Blind({IF IsFail(r) THEN OkV(Eval(f.e, env), pos) ELSE r : r \in PFoll(M, f.f, env, w, pos, tail)}, pos)
      [] f.k = "item" ->
            LET it == M[f.i + 1]
                vs == [i \in 1 .. Len(f.args) |-> Eval(f.args[i], env)]
                ws == [i \in 1 .. Len(f.views) |-> EvalView(f.views[i], env)]
            IN IF (\E i \in DOMAIN vs : vs[i] = Undef) \/ (\E i \in DOMAIN ws : ws[i][1] = "undef") THEN {UndefR}
               ELSE IF \E i \in DOMAIN ws : ws[i][1] = "none" THEN {Fail(pos)}
               ELSE P(M, it.f, [v |-> [l \in {it.args[i][1] : i \in 1 .. Len(it.args)} |->
                                        vs[CHOOSE i \in 1 .. Len(it.args) : it.args[i][1] = l]],
                                w |-> [l \in {it.views[i] : i \in 1 .. Len(it.views)} |->
                                        ws[CHOOSE i \in 1 .. Len(it.views) : it.views[i] = l][2]],
                                d |-> << >>], w, pos, tail)

(* A whole run: the decoder is committed to its input. *)
Run(M, f, bytes) == Commit(M, f, P(M, f, EmptyEnv, [b |-> bytes, e |-> Len(bytes), lo |-> 0], 0, TRUE), Len(bytes))
=============================================================================
