------------------------------ MODULE ExprSem -------------------------------
(***************************************************************************)
(* Meaning of doodle expressions and patterns.                             *)
(*                                                                         *)
(* Values are tagged tuples, tag first:                                    *)
(*   <<"bool", b>>  <<"u8"|"u16"|"u32"|"u64"|"usize", n>>  <<"char", n>>   *)
(*   <<"tup", vs>>  <<"rec", << <<label, v>>, ... >> >>  <<"var", l, v>>   *)
(*   <<"seq", vs>>  <<"opt", << >> or <<v>> >>  <<"view", offset>>         *)
(*   <<"phantom">>                                                         *)
(* with numbers n as in BigNat.  The wrappers by which the implementation  *)
(* remembers how a value came about (branch taken, pre-image of a map,     *)
(* fallback of a permit) are NOT values: they are transparent to every     *)
(* expression, at any depth.                                               *)
(*                                                                         *)
(* Eval yields Undef where an expression has no value: overflow, division  *)
(* by zero, index out of range, no matching branch.                        *)
(*                                                                         *)
(* An environment has three name spaces: values, views, dynamic formats.   *)
(***************************************************************************)
EXTENDS BigNat, TLC, FiniteSets

(* Signed and mixed-width integer expressions yield <<"numeric", integer,   *)
(* type>>, meaning in NumSem.                                              *)
Num == INSTANCE NumSem

Undef == << "undef" >>
EmptyEnv == [v |-> << >>, w |-> << >>, d |-> << >>]
BindV(env, l, x) == [env EXCEPT !.v = (l :> x) @@ env.v]
BindW(env, l, x) == [env EXCEPT !.w = (l :> x) @@ env.w]
BindD(env, l, x) == [env EXCEPT !.d = (l :> x) @@ env.d]

NumTags == {"u8", "u16", "u32", "u64", "usize"}
Width(t) == CASE t = "u8" -> 8 [] t = "u16" -> 16 [] t = "u32" -> 32 [] t = "u64" -> 64 [] t = "usize" -> 64
IsNum(x) == x[1] \in NumTags
Fit(t, n) == IF NFits(n, Width(t)) THEN << t, n >> ELSE Undef

Unit == << "tup", << >> >>
U8(b) == << "u8", NOf(b) >>

-----------------------------------------------------------------------------
Rel(op, c) == CASE op = "eq" -> c = 0 [] op = "ne" -> c # 0 [] op = "lt" -> c < 0
                [] op = "le" -> c <= 0 [] op = "gt" -> c > 0 [] op = "ge" -> c >= 0

ArithOp(op, x, y) ==
    IF op = "band" THEN << "bool", x[2] /\ y[2] >>
    ELSE IF op = "bor" THEN << "bool", x[2] \/ y[2] >>
    ELSE LET t == x[1]  a == x[2]  b == y[2] IN
    CASE op = "add" -> Fit(t, NAdd(a, b))
      [] op = "sub" -> IF NLt(a, b) THEN Undef ELSE << t, NSub(a, b) >>
      [] op = "mul" -> Fit(t, NMul(a, b))
      [] op = "div" -> IF b = Zero THEN Undef ELSE << t, NDiv(a, b) >>
      [] op = "rem" -> IF b = Zero THEN Undef ELSE << t, NRem(a, b) >>
      [] op = "and" -> << t, NAnd(a, b) >>
      [] op = "or" -> << t, NOr(a, b) >>
      [] op = "shl" -> IF NInt(b) >= Width(t) THEN Undef ELSE << t, NLow(NShl(a, NInt(b)), Width(t)) >>
      [] op = "shr" -> IF NInt(b) >= Width(t) THEN Undef ELSE << t, NShr(a, NInt(b)) >>

UnaryOp(op, x) ==
    CASE op = "not" -> << "bool", ~x[2] >>
      [] op = "succ" -> Fit(x[1], NAdd(x[2], One))
      [] op = "pred" -> IF x[2] = Zero THEN Undef ELSE << x[1], NSub(x[2], One) >>

(* Unicode scalar values: 0..D7FF and E000..10FFFF. *)
Surrogate0 == NOf(55296)
Surrogate1 == NOf(57343)
MaxScalar == NOf(1114111)
IsScalar(n) == NLe(n, MaxScalar) /\ ~(NLe(Surrogate0, n) /\ NLe(n, Surrogate1))
ToChar(x) == IF ~NFits(x[2], 32) THEN Undef
             ELSE IF IsScalar(x[2]) THEN << "char", x[2] >> ELSE << "char", NOf(65533) >>

RECURSIVE FromBytes(_, _)     \* big-endian
FromBytes(bs, acc) == IF bs = << >> THEN acc
                      ELSE FromBytes(Tail(bs), NAdd(NMul(acc, << 256 >>), Head(bs)))
Reverse(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]

-----------------------------------------------------------------------------
(* Patterns: << >> if the value does not match, otherwise << env >> with   *)
(* the pattern's variables bound.                                          *)
RECURSIVE PM(_, _, _)
RECURSIVE PMAll(_, _, _, _)
PMAll(ps, xs, i, env) ==
    IF i > Len(ps) THEN << env >>
    ELSE LET r == PM(ps[i], xs[i], env)
         IN IF r = << >> THEN << >> ELSE PMAll(ps, xs, i + 1, r[1])
PM(p, x, env) ==
    CASE p.k = "bind" -> << BindV(env, p.l, x) >>
      [] p.k = "wild" -> << env >>
      [] p.k = "bool" -> IF x[1] = "bool" /\ x[2] = p.b THEN << env >> ELSE << >>
      [] p.k = "num" -> IF x[1] = p.t /\ x[2] = p.n THEN << env >> ELSE << >>
      [] p.k = "int" -> IF IsNum(x) /\ NLe(p.lo, x[2]) /\ (p.hasHi => NLe(x[2], p.hi)) THEN << env >> ELSE << >>
      [] p.k = "z" -> LET z == IF IsNum(x) THEN << 1, x[2] >> ELSE IF x[1] = "numeric" THEN x[2] ELSE << >>
                      IN IF z # << >> /\ Num!ZCmp(p.lo, z) <= 0 /\ Num!ZCmp(z, p.hi) <= 0 THEN << env >> ELSE << >>
      [] p.k = "char" -> IF x[1] = "char" /\ x[2] = p.n THEN << env >> ELSE << >>
      [] p.k = "tuple" -> IF x[1] = "tup" /\ Len(x[2]) = Len(p.ps) THEN PMAll(p.ps, x[2], 1, env) ELSE << >>
      [] p.k = "seq" -> IF x[1] = "seq" /\ Len(x[2]) = Len(p.ps) THEN PMAll(p.ps, x[2], 1, env) ELSE << >>
      [] p.k = "variant" -> IF x[1] = "var" /\ x[2] = p.l THEN PM(p.p, x[3], env) ELSE << >>
      [] p.k = "opt" -> IF x[1] = "opt" /\ Len(x[2]) = Len(p.ps) THEN PMAll(p.ps, x[2], 1, env) ELSE << >>

(* Index of the first branch that matches, with its environment. *)
RECURSIVE FirstMatch(_, _, _, _)
FirstMatch(bs, i, x, env) ==
    IF i > Len(bs) THEN << >>
    ELSE LET r == PM(bs[i][1], x, env)
         IN IF r # << >> THEN << i, r[1] >> ELSE FirstMatch(bs, i + 1, x, env)

-----------------------------------------------------------------------------
RECURSIVE Field(_, _, _)
Field(fs, i, l) == IF i > Len(fs) THEN Undef ELSE IF fs[i][1] = l THEN fs[i][2] ELSE Field(fs, i + 1, l)

RECURSIVE Inflate(_, _, _)
(* LZ77-style copy: out starts as the source and grows by one element per  *)
(* step, read `dist` elements back.                                        *)
Inflate(out, dist, n) == IF n = 0 THEN out ELSE Inflate(Append(out, out[Len(out) + 1 - dist]), dist, n - 1)

RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN << >> ELSE << x >> \o Rep(x, n - 1)

RECURSIVE Eval(_, _)
Lam(f, env, x) == Eval(f.e, BindV(env, f.l, x))

RECURSIVE FlatMap(_, _, _, _, _)
FlatMap(f, env, xs, i, acc) ==
    IF i > Len(xs) THEN << "seq", acc >>
    ELSE LET r == Lam(f, env, xs[i])
         IN IF r = Undef THEN Undef ELSE FlatMap(f, env, xs, i + 1, acc \o r[2])
RECURSIVE FlatMapAccum(_, _, _, _, _, _)
FlatMapAccum(f, env, xs, i, a, acc) ==
    IF i > Len(xs) THEN << "seq", acc >>
    ELSE LET r == Lam(f, env, << "tup", << a, xs[i] >> >>)
         IN IF r = Undef THEN Undef ELSE FlatMapAccum(f, env, xs, i + 1, r[2][1], acc \o r[2][2][2])
RECURSIVE FlatMapList(_, _, _, _, _)
FlatMapList(f, env, xs, i, acc) ==
    IF i > Len(xs) THEN << "seq", acc >>
    ELSE LET r == Lam(f, env, << "tup", << << "seq", acc >>, xs[i] >> >>)
         IN IF r = Undef THEN Undef ELSE FlatMapList(f, env, xs, i + 1, acc \o r[2])
RECURSIVE Fold(_, _, _, _, _)
Fold(f, env, xs, i, a) ==
    IF i > Len(xs) \/ a = Undef THEN a
    ELSE Fold(f, env, xs, i + 1, Lam(f, env, << "tup", << a, xs[i] >> >>))
RECURSIVE Find(_, _, _, _, _)
Find(f, env, xs, i, q) ==
    IF i > Len(xs) THEN << "opt", << >> >>
    ELSE LET k == Lam(f, env, xs[i])
         IN IF k = Undef THEN Undef
            ELSE IF k[2] = q[2] THEN << "opt", << xs[i] >> >>
            ELSE Find(f, env, xs, i + 1, q)

NumEnv(e, env) == LET S == Num!NumVars(e) \cap DOMAIN env.v
                      bind(l) == LET x == env.v[l]
                                 IN IF x[1] = "numeric" THEN << l, x[2], x[3] >>
                                    ELSE IF IsNum(x) /\ x[1] # "usize" THEN << l, << 1, x[2] >>, x[1] >>
                                    ELSE << l, << 1, << >> >>, "other" >>
                      RECURSIVE list(_)
                      list(T) == IF T = {} THEN << >> ELSE LET l == CHOOSE l \in T : TRUE IN << bind(l) >> \o list(T \ {l})
                  IN list(S)
NumEval(e, env) == LET r == Num!Ev(e, NumEnv(e, env)) IN IF r[1] = "err" THEN Undef ELSE << "numeric", r[2], r[3] >>
AsZ(x) == IF x[1] = "numeric" THEN x[2] ELSE << 1, x[2] >>
(* Comparison; a signed integer and a machine integer compare by value if *)
(* the signed one fits the other's type.                                  *)
RelOf(op, x, y) ==
    IF x[1] # "numeric" /\ y[1] # "numeric" THEN << "bool", Rel(op, NCmp(x[2], y[2])) >>
    ELSE << "bool", Rel(op, Num!ZCmp(AsZ(x), AsZ(y))) >>

Strict1(x, K(_)) == IF x = Undef THEN Undef ELSE K(x)
Strict2(x, y, K(_, _)) == IF x = Undef \/ y = Undef THEN Undef ELSE K(x, y)

Eval(e, env) ==
    CASE e.k = "var" -> IF e.l \in DOMAIN env.v THEN env.v[e.l] ELSE Undef
      [] e.k = "num" -> << e.t, e.n >>
      [] e.k = "bool" -> << "bool", e.b >>
      [] e.k = "numeric" -> NumEval(e.e, env)
      [] e.k = "tuple" -> LET vs == [i \in 1 .. Len(e.es) |-> Eval(e.es[i], env)]
                          IN IF \E i \in DOMAIN vs : vs[i] = Undef THEN Undef ELSE << "tup", vs >>
      [] e.k = "tproj" -> LET x == Eval(e.e, env) IN IF x = Undef THEN Undef ELSE x[2][e.i + 1]
      [] e.k = "record" -> LET vs == [i \in 1 .. Len(e.fs) |-> << e.fs[i][1], Eval(e.fs[i][2], env) >>]
                           IN IF \E i \in DOMAIN vs : vs[i][2] = Undef THEN Undef ELSE << "rec", vs >>
      [] e.k = "rproj" -> LET x == Eval(e.e, env) IN IF x = Undef THEN Undef ELSE Field(x[2], 1, e.l)
      [] e.k = "arith" -> Strict2(Eval(e.a, env), Eval(e.b, env), LAMBDA x, y : ArithOp(e.op, x, y))
      [] e.k = "rel" -> Strict2(Eval(e.a, env), Eval(e.b, env), LAMBDA x, y : RelOf(e.op, x, y))
      [] e.k = "un" -> Strict1(Eval(e.e, env), LAMBDA x : UnaryOp(e.op, x))
      [] e.k = "variant" -> Strict1(Eval(e.e, env), LAMBDA x : << "var", e.l, x >>)
      [] e.k = "seq" -> LET vs == [i \in 1 .. Len(e.es) |-> Eval(e.es[i], env)]
                        IN IF \E i \in DOMAIN vs : vs[i] = Undef THEN Undef ELSE << "seq", vs >>
      [] e.k = "match" -> LET x == Eval(e.e, env) IN
                          IF x = Undef THEN Undef
                          ELSE LET m == FirstMatch(e.bs, 1, x, env)
                               IN IF m = << >> THEN Undef ELSE Eval(e.bs[m[1]][2], m[2])
      [] e.k = "destr" -> LET x == Eval(e.e, env) IN
                          IF x = Undef THEN Undef
                          ELSE LET m == PM(e.p, x, env) IN IF m = << >> THEN Undef ELSE Eval(e.b, m[1])
      [] e.k = "as" -> Strict1(Eval(e.e, env), LAMBDA x : Fit(e.t, x[2]))
      [] e.k = "aschar" -> Strict1(Eval(e.e, env), ToChar)
      [] e.k = "endian" -> LET x == Eval(e.e, env) IN
                           IF x = Undef THEN Undef
                           ELSE LET bs == [i \in 1 .. Len(x[2]) |-> x[2][i][2]]
                                IN << e.t, FromBytes(IF e.big THEN bs ELSE Reverse(bs), Zero) >>
      [] e.k = "len" -> Strict1(Eval(e.e, env), LAMBDA x : << "u32", NOf(Len(x[2])) >>)
      [] e.k = "seqix" -> Strict2(Eval(e.e, env), Eval(e.i, env), LAMBDA x, i :
                              IF NInt(i[2]) < Len(x[2]) THEN x[2][NInt(i[2]) + 1] ELSE Undef)
      [] e.k = "subseq" -> LET x == Eval(e.e, env)  s == Eval(e.s, env)  n == Eval(e.n, env) IN
                           IF x = Undef \/ s = Undef \/ n = Undef THEN Undef
                           ELSE IF NInt(s[2]) + NInt(n[2]) <= Len(x[2])
                           THEN << "seq", SubSeq(x[2], NInt(s[2]) + 1, NInt(s[2]) + NInt(n[2])) >> ELSE Undef
      [] e.k = "inflate" -> LET x == Eval(e.e, env)  s == Eval(e.s, env)  n == Eval(e.n, env) IN
                            IF x = Undef \/ s = Undef \/ n = Undef THEN Undef
                            ELSE IF n[2] = Zero THEN << "seq", << >> >>
                            ELSE IF NInt(s[2]) >= Len(x[2]) THEN Undef
                            ELSE LET out == Inflate(x[2], Len(x[2]) - NInt(s[2]), NInt(n[2]))
                                 IN << "seq", SubSeq(out, Len(x[2]) + 1, Len(out)) >>
      [] e.k = "flatmap" -> Strict1(Eval(e.e, env), LAMBDA x : FlatMap(e.x, env, x[2], 1, << >>))
      [] e.k = "fmaccum" -> Strict2(Eval(e.e, env), Eval(e.init, env), LAMBDA x, a : FlatMapAccum(e.x, env, x[2], 1, a, << >>))
      [] e.k = "fmlist" -> Strict1(Eval(e.e, env), LAMBDA x : FlatMapList(e.x, env, x[2], 1, << >>))
      [] e.k = "fold" -> Strict2(Eval(e.e, env), Eval(e.init, env), LAMBDA x, a : Fold(e.x, env, x[2], 1, a))
      [] e.k = "find" -> Strict2(Eval(e.e, env), Eval(e.q, env), LAMBDA x, q : Find(e.x, env, x[2], 1, q))
      [] e.k = "range" -> Strict2(Eval(e.a, env), Eval(e.b, env), LAMBDA x, y :
                              IF NInt(y[2]) <= NInt(x[2]) THEN << "seq", << >> >>
                              ELSE << "seq", [i \in 1 .. (NInt(y[2]) - NInt(x[2])) |-> << "usize", NOf(NInt(x[2]) + i - 1) >>] >>)
      [] e.k = "dup" -> Strict2(Eval(e.n, env), Eval(e.e, env), LAMBDA n, x : << "seq", Rep(x, NInt(n[2])) >>)
      [] e.k = "lifto" -> IF e.es = << >> THEN << "opt", << >> >>
                          ELSE Strict1(Eval(e.es[1], env), LAMBDA x : << "opt", << x >> >>)
      [] e.k = "append" -> Strict2(Eval(e.a, env), Eval(e.b, env), LAMBDA x, y : << "seq", x[2] \o y[2] >>)
=============================================================================
