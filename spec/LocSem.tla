------------------------------ MODULE LocSem --------------------------------
(***************************************************************************)
(* Where in the input a decoded value came from.                           *)
(*                                                                         *)
(* T(M, f, env, le, w, pos, v, p) is the location tree of the value v that *)
(* format f decodes between pos and p:                                     *)
(*    [o |-> offset, l |-> length, any |-> FALSE, ks |-> trees of the      *)
(*     components]                                                         *)
(* Offsets are those of the window (bits inside a bits region).  A value   *)
(* without a place in the input has o = -1; o = -2 says nothing (the value *)
(* came about in a way the specification leaves open, or an expression     *)
(* built it); any = TRUE says nothing about the components.                *)
(* le gives the trees of the variables bound by decoding.                  *)
(***************************************************************************)
EXTENDS FormatSem

Node(o, l, ks) == [o |-> o, l |-> l, any |-> FALSE, ks |-> ks]
Root(o, l) == [o |-> o, l |-> l, any |-> TRUE, ks |-> << >>]
Unknown == Root(-2, 0)
Synth == Root(-1, 0)

RECURSIVE Fits(_, _)
(* r = << offset, length, components >> is what was recorded. *)
Fits(t, r) ==
    /\ t.o # -2 => (t.o = r[1] /\ t.l = r[2])
    /\ ~t.any => /\ Len(t.ks) = Len(r[3])
                 /\ \A i \in DOMAIN t.ks : Fits(t.ks[i], r[3][i])

(* A record built by an expression covers its fields. *)
RECURSIVE JoinAll(_, _, _)
JoinAll(ks, i, acc) ==
    IF i > Len(ks) THEN acc
    ELSE LET k == ks[i]
         IN IF k.o = -2 THEN << -2, 0 >>
            ELSE IF k.o = -1 THEN JoinAll(ks, i + 1, acc)
            ELSE IF acc[1] = -1 THEN JoinAll(ks, i + 1, << k.o, k.l >>)
            ELSE JoinAll(ks, i + 1, << Min2(acc[1], k.o), acc[2] + k.l >>)

RECURSIVE TE(_, _)
TE(e, le) ==
    CASE e.k = "var" -> IF e.l \in DOMAIN le THEN le[e.l] ELSE Unknown
      [] e.k \in {"num", "bool"} -> Node(-1, 0, << >>)
      [] e.k = "record" -> LET ks == [i \in 1 .. Len(e.fs) |-> TE(e.fs[i][2], le)]
                               j == JoinAll(ks, 1, << -1, 0 >>)
                           IN Node(j[1], j[2], ks)
      [] e.k = "tproj" -> LET t == TE(e.e, le)
                          IN IF t.any \/ e.i + 1 > Len(t.ks) THEN Unknown ELSE t.ks[e.i + 1]
      [] e.k \in {"arith", "rel", "un", "as", "aschar", "endian", "len"} -> Node(-1, 0, << >>)
      [] e.k \in {"tuple", "seq"} -> Synth
      [] OTHER -> Unknown

Bind1(le, l, t) == [x \in DOMAIN le \cup {l} |-> IF x = l THEN t ELSE le[x]]
Hide(le, ls) == [x \in DOMAIN le \cup ls |-> IF x \in ls THEN Unknown ELSE le[x]]

RECURSIVE PatVars(_)
PatVars(pt) ==
    CASE pt.k = "bind" -> {pt.l}
      [] pt.k \in {"tuple", "seq", "opt"} -> UNION {PatVars(pt.ps[i]) : i \in DOMAIN pt.ps}
      [] pt.k = "variant" -> PatVars(pt.p)
      [] OTHER -> {}

(* An absent option has no place of its own, wherever it came from. *)
RECURSIVE Bare(_)
Bare(v) == CASE v[1] = "opt" -> IF v[2] = << >> THEN TRUE ELSE Bare(v[2][1])
             [] v[1] = "var" -> Bare(v[3])
             [] OTHER -> FALSE

Pick(S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE << >>

RECURSIVE T(_, _, _, _, _, _, _, _)
RECURSIVE TSeq(_, _, _, _, _, _, _, _, _)

(* Trees of components vs[i..] decoded by F(i) in turn from pos to end;    *)
(* << >> if where they begin is not determined.                            *)
TSeq(M, F, env, le, w, pos, vs, i, acc) ==
    IF i > Len(vs) THEN << acc >>
    ELSE LET R == P(M, F[i], env, w, pos, FALSE) \cup (IF i = Len(vs) THEN P(M, F[i], env, w, pos, TRUE) ELSE {})
             ends == {r[3] : r \in {q \in R : IsOk(q) /\ q[2] = vs[i]}}
             e == Pick({<< x >> : x \in ends})
         IN IF e = << >> THEN << >>
            ELSE TSeq(M, F, env, le, w, e[1], vs, i + 1, Append(acc, T(M, F[i], env, le, w, pos, vs[i], e[1])))

Comps(M, F, env, le, w, pos, vs, p) ==
    LET ks == TSeq(M, F, env, le, w, pos, vs, 1, << >>)
    IN IF ks = << >> THEN Root(pos, p - pos) ELSE Node(pos, p - pos, ks[1])
Same(f, n) == [i \in 1 .. n |-> f]

(* The result of the first of two formats in sequence. *)
First(M, f, g, K(_, _), env, w, pos, v, p) ==
    Pick({r \in P(M, f, env, w, pos, FALSE) :
            IsOk(r) /\ \E q \in K(r[2], r[3]) : IsOk(q) /\ q[2] = v /\ q[3] = p})

T(M, f, env, le, w, pos, v, p) ==
    CASE f.k = "byte" -> Node(pos, 1, << >>)
      [] f.k \in {"tuple", "seq"} -> Comps(M, f.fs, env, le, w, pos, v[2], p)
      [] f.k \in {"rep", "rep1", "repc", "repb", "repul", "repus"} ->
            Comps(M, Same(f.f, Len(v[2])), env, le, w, pos, v[2], p)
      [] f.k = "foreach" -> Root(pos, p - pos)
      [] f.k = "accum" ->
            LET s == Comps(M, Same(f.f, Len(v[2][2][2])), env, le, w, pos, v[2][2][2], p)
            IN Node(pos, p - pos, << Synth, s >>)
      [] f.k \in {"eoi", "align", "skip", "peeknot"} -> Node(pos, p - pos, << >>)
      [] f.k \in {"pos", "phantom"} -> Node(-1, 0, << >>)
      [] f.k = "letf" ->
            LET r == First(M, f.f, f.g, LAMBDA x, q : P(M, f.g, BindV(env, f.l, x), w, q, FALSE) \cup
                                                      P(M, f.g, BindV(env, f.l, x), w, q, TRUE), env, w, pos, v, p)
            IN IF r = << >> THEN Unknown
               ELSE T(M, f.g, BindV(env, f.l, r[2]), Bind1(le, f.l, T(M, f.f, env, le, w, pos, r[2], r[3])), w, r[3], v, p)
      [] f.k = "mseq" ->
            LET r == First(M, f.f, f.g, LAMBDA x, q : P(M, f.g, env, w, q, FALSE) \cup P(M, f.g, env, w, q, TRUE), env, w, pos, v, p)
            IN IF r = << >> THEN Unknown ELSE T(M, f.g, env, le, w, r[3], v, p)
      [] f.k = "map" ->
            LET rs == {r \in P(M, f.f, env, w, pos, TRUE) \cup P(M, f.f, env, w, pos, FALSE) :
                         IsOk(r) /\ r[3] = p /\ Lam(f.x, env, r[2]) = v}
                S == {<< T(M, f.f, env, le, w, pos, r[2], p) >> : r \in rs}
                t == Pick({<< x[1].o, x[1].l >> : x \in S})
            IN IF Bare(v) \/ t = << >> THEN Unknown ELSE Root(t[1], t[2])
      [] f.k \in {"where", "hint"} -> T(M, f.f, env, le, w, pos, v, p)
      [] f.k = "letview" -> T(M, f.f, BindW(env, f.l, [w |-> w, p |-> pos]), le, w, pos, v, p)
      [] f.k = "variant" -> T(M, f.f, env, le, w, pos, v[3], p)
      [] f.k \in {"union", "nondet"} ->
            LET i == Pick({<< j >> : j \in {j \in DOMAIN f.fs :
                        \E r \in P(M, f.fs[j], env, w, pos, TRUE) \cup P(M, f.fs[j], env, w, pos, FALSE) :
                            IsOk(r) /\ r[2] = v /\ r[3] = p}})
            IN IF i = << >> THEN Unknown ELSE T(M, f.fs[i[1]], env, le, w, pos, v, p)
      [] f.k \in {"maybe", "lifto"} ->
            IF v[2] = << >> THEN Node(-1, 0, << >>)
            ELSE T(M, IF f.k = "maybe" THEN f.f ELSE f.fs[1], env, le, w, pos, v[2][1], p)
      [] f.k = "compute" -> TE(f.e, le)
      [] f.k = "let" -> T(M, f.f, BindV(env, f.l, Eval(f.e, env)), Bind1(le, f.l, TE(f.e, le)), w, pos, v, p)
      [] f.k = "match" ->
            LET m == FirstMatch(f.bs, 1, Eval(f.e, env), env)
            IN T(M, f.bs[m[1]][2], m[2], Hide(le, PatVars(f.bs[m[1]][1])), w, pos, v, p)
      [] f.k = "peek" ->
            LET e == Pick({<< r[3] >> : r \in {q \in P(M, f.f, env, w, pos, TRUE) : IsOk(q) /\ q[2] = v}})
            IN IF e = << >> THEN Unknown ELSE T(M, f.f, env, le, w, pos, v, e[1])
      [] f.k = "slice" ->
            LET w2 == [w EXCEPT !.e = p]
                e == Pick({<< r[3] >> : r \in {q \in P(M, f.f, env, w2, pos, TRUE) : IsOk(q) /\ q[2] = v}})
            IN IF e = << >> THEN Unknown ELSE T(M, f.f, env, le, w2, pos, v, e[1])
      [] f.k = "bits" ->
            LET bs == BitsOf(SubSeq(w.b, pos + 1, w.e))
                w2 == [b |-> bs, e |-> Len(bs), lo |-> 0]
                e == Pick({<< r[3] >> : r \in {q \in P(M, f.f, env, w2, 0, TRUE) : IsOk(q) /\ q[2] = v}})
            IN IF e = << >> THEN Unknown ELSE T(M, f.f, env, le, w2, 0, v, e[1])
      [] f.k = "reloff" ->
            LET q0 == NInt(NAdd(Eval(f.base, env)[2], Eval(f.off, env)[2]))
                e == Pick({<< r[3] >> : r \in {q \in P(M, f.f, env, w, q0, TRUE) : IsOk(q) /\ q[2] = v}})
            IN IF e = << >> THEN Unknown ELSE T(M, f.f, env, le, w, q0, v, e[1])
      [] f.k = "decbytes" ->
            LET bs == [i \in 1 .. Len(Eval(f.e, env)[2]) |-> NInt(Eval(f.e, env)[2][i][2])]
                w2 == [b |-> bs, e |-> Len(bs), lo |-> 0]
                e == Pick({<< r[3] >> : r \in {q \in P(M, f.f, env, w2, 0, TRUE) : IsOk(q) /\ q[2] = v}})
            IN IF e = << >> THEN Unknown ELSE T(M, f.f, env, le, w2, 0, v, e[1])
      [] f.k = "fromview" ->
            LET x == EvalView(f.v, env)[2]
                w2 == [x.w EXCEPT !.lo = x.p]
                e == Pick({<< r[3] >> : r \in {q \in P(M, f.f, env, w2, x.p, TRUE) : IsOk(q) /\ q[2] = v}})
            IN IF e = << >> THEN Unknown ELSE T(M, f.f, env, le, w2, x.p, v, e[1])
      [] f.k = "capture" ->
            LET x == EvalView(f.v, env)[2]
            IN Node(x.p, Len(v[2]), [i \in 1 .. Len(v[2]) |-> Node(x.p + i - 1, 1, << >>)])
      [] f.k = "readarr" ->
            LET x == EvalView(f.v, env)[2]
                sz == Width(f.t) \div 8
            IN Node(x.p, sz * Len(v[2]), [i \in 1 .. Len(v[2]) |-> Node(x.p + sz * (i - 1), sz, << >>)])
      [] f.k = "item" ->
            LET it == M[f.i + 1]
                vs == [i \in 1 .. Len(f.args) |-> Eval(f.args[i], env)]
                ws == [i \in 1 .. Len(f.views) |-> EvalView(f.views[i], env)]
                e2 == [v |-> [l \in {it.args[i][1] : i \in 1 .. Len(it.args)} |->
                               vs[CHOOSE i \in 1 .. Len(it.args) : it.args[i][1] = l]],
                       w |-> [l \in {it.views[i] : i \in 1 .. Len(it.views)} |->
                               ws[CHOOSE i \in 1 .. Len(it.views) : it.views[i] = l][2]],
                       d |-> << >>]
                l2 == [l \in {it.args[i][1] : i \in 1 .. Len(it.args)} |->
                               TE(f.args[CHOOSE i \in 1 .. Len(it.args) : it.args[i][1] = l], le)]
            IN T(M, it.f, e2, l2, w, pos, v, p)
      [] OTHER -> Unknown

(* The location tree of a whole run that decoded v up to p. *)
RunLoc(M, f, bytes, v, p) == T(M, f, EmptyEnv, << >>, [b |-> bytes, e |-> Len(bytes), lo |-> 0], 0, v, p)
=============================================================================
