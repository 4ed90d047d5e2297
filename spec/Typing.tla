------------------------------- MODULE Typing -------------------------------
(***************************************************************************)
(* Types of expressions and formats, and which values inhabit them.        *)
(*                                                                         *)
(* A type is << "u8" >> .. << "i64" >>, << "bool" >>, << "char" >>,        *)
(* << "view" >>, << "numhole" >> (some number), << "any" >> (not known     *)
(* yet), << "empty" >> (no value), << "tup", types >>,                     *)
(* << "rec", << <<label, type>>, ... >> >>, << "union", [label -> type] >>,*)
(* << "seq", type >>, << "opt", type >>, << "phantom", type >>.            *)
(* Ill stands for "has no type".                                           *)
(*                                                                         *)
(* A scope maps names to << "val", t >>, << "wiew" >> (a view) or          *)
(* << "fmt", t >> (a dynamic format).                                      *)
(***************************************************************************)
EXTENDS BigNat, TLC, FiniteSets, Json
CONSTANTS File, Shards
VARIABLE i

T(n) == << n >>
Ill == T("ill")
Unknown == T("any")
Empty == T("empty")
Hole == T("numhole")
Bool == T("bool")
Unit == << "tup", << >> >>
SeqOf(t) == IF t = Ill THEN Ill ELSE << "seq", t >>
OptOf(t) == IF t = Ill THEN Ill ELSE << "opt", t >>
Unsigned == {"u8", "u16", "u32", "u64"}
Signed == {"i8", "i16", "i32", "i64"}
IsBase(t) == t[1] \in Unsigned
IsNumeric(t) == t[1] \in Unsigned \cup Signed \cup {"numhole"}
Proper(t) == t # Ill
AllProper(ts) == \A k \in DOMAIN ts : ts[k] # Ill

RECURSIVE Unify(_, _)
UnifyAll(as, bs) == [k \in DOMAIN as |-> Unify(as[k], bs[k])]
Unify(a, b) ==
    CASE a = Ill \/ b = Ill -> Ill
      [] a = Unknown -> b
      [] b = Unknown -> a
      [] a = Empty -> b
      [] b = Empty -> a
      [] a = Hole /\ IsNumeric(b) -> b
      [] b = Hole /\ IsNumeric(a) -> a
      [] a[1] # b[1] -> Ill
      [] a[1] = "tup" -> IF Len(a[2]) # Len(b[2]) THEN Ill
                         ELSE LET ts == UnifyAll(a[2], b[2]) IN IF AllProper(ts) THEN << "tup", ts >> ELSE Ill
      [] a[1] = "rec" ->
            IF Len(a[2]) # Len(b[2]) THEN Ill
            ELSE LET fs == [k \in DOMAIN a[2] |-> << a[2][k][1], Unify(a[2][k][2], b[2][k][2]) >>]
                 IN IF \A k \in DOMAIN fs : fs[k][1] = b[2][k][1] /\ fs[k][2] # Ill THEN << "rec", fs >> ELSE Ill
      [] a[1] = "union" ->
            LET ls == DOMAIN a[2] \cup DOMAIN b[2]
                u  == [l \in ls |-> IF l \notin DOMAIN a[2] THEN b[2][l]
                                    ELSE IF l \notin DOMAIN b[2] THEN a[2][l]
                                    ELSE Unify(a[2][l], b[2][l])]
            IN IF \A l \in ls : u[l] # Ill THEN << "union", u >> ELSE Ill
      [] a[1] \in {"seq", "opt", "phantom"} -> LET t == Unify(a[2], b[2]) IN IF t = Ill THEN Ill ELSE << a[1], t >>
      [] OTHER -> a

RECURSIVE Join(_, _, _)
Join(ts, k, acc) == IF k > Len(ts) THEN acc ELSE Join(ts, k + 1, Unify(acc, ts[k]))

-----------------------------------------------------------------------------
Val(t) == << "val", t >>
Bind(sc, l, x) == (l :> x) @@ sc
BindV(sc, l, t) == Bind(sc, l, Val(t))
TypeOfVar(sc, l) == IF l \in DOMAIN sc /\ sc[l][1] = "val" THEN sc[l][2] ELSE Ill

(* Scope extended by a pattern's variables; << >> where the pattern cannot describe a value of the type. *)
RECURSIVE PT(_, _, _), PTAll(_, _, _, _)
PTAll(ps, ts, k, sc) ==
    IF k > Len(ps) THEN << sc >>
    ELSE LET r == PT(ps[k], ts[k], sc) IN IF r = << >> THEN << >> ELSE PTAll(ps, ts, k + 1, r[1])
PT(p, t, sc) ==
    CASE p.k = "bind" -> << BindV(sc, p.l, t) >>
      [] p.k = "wild" -> << sc >>
      [] p.k = "bool" -> IF t = Bool THEN << sc >> ELSE << >>
      [] p.k = "char" -> IF t = T("char") THEN << sc >> ELSE << >>
      [] p.k = "num" -> IF t = T(p.t) THEN << sc >> ELSE << >>
      [] p.k = "int" -> IF IsBase(t) THEN << sc >> ELSE << >>
      [] p.k = "tuple" -> IF t[1] = "tup" /\ Len(t[2]) = Len(p.ps) THEN PTAll(p.ps, t[2], 1, sc) ELSE << >>
      [] p.k = "seq" -> IF t[1] = "seq" THEN PTAll(p.ps, [k \in DOMAIN p.ps |-> t[2]], 1, sc) ELSE << >>
      [] p.k = "opt" -> IF t[1] = "opt" THEN PTAll(p.ps, [k \in DOMAIN p.ps |-> t[2]], 1, sc) ELSE << >>
      [] p.k = "variant" -> IF t[1] = "union" /\ p.l \in DOMAIN t[2] THEN PT(p.p, t[2][p.l], sc) ELSE << >>

-----------------------------------------------------------------------------
(* Numeric trees: an operation without a type of its own takes the common  *)
(* type of its operands.                                                   *)
Named(r) == IF r = "auto" THEN Hole ELSE T(r)
RECURSIVE NumTy(_, _)
NumTy(e, sc) ==
    CASE e.k = "c" -> Named(e.r)
      [] e.k = "v" -> LET t == TypeOfVar(sc, e.l) IN IF IsNumeric(t) \/ t \in {Unknown, Empty} THEN t ELSE Ill
      [] e.k = "b" -> LET a == NumTy(e.a, sc)  b == NumTy(e.b, sc)
                      IN IF a = Ill \/ b = Ill THEN Ill ELSE IF e.r # "none" THEN Named(e.r) ELSE Unify(a, b)
      [] e.k = "u" -> LET a == NumTy(e.a, sc) IN IF a = Ill \/ e.r = "none" THEN a ELSE Named(e.r)
      [] e.k = "cast" -> IF NumTy(e.a, sc) = Ill THEN Ill ELSE Named(e.r)

Bytes(n) == << "tup", [k \in 1 .. n |-> T("u8")] >>
U32 == T("u32")

RECURSIVE ET(_, _), Branches(_, _, _, _)
\* type of the body of a function applied to something of type t
Body(x, t, sc) == IF x.k # "lam" \/ t = Ill THEN Ill ELSE ET(x.e, BindV(sc, x.l, t))
Branches(bs, k, t, sc) ==      \* expression branches, from the kth on
    IF k > Len(bs) THEN Unknown
    ELSE LET r == PT(bs[k][1], t, sc)
             b == IF r = << >> THEN Ill ELSE ET(bs[k][2], r[1])
         IN IF b = Ill THEN Ill ELSE Unify(b, Branches(bs, k + 1, t, sc))
ET(e, sc) ==
    CASE e.k = "var" -> TypeOfVar(sc, e.l)
      [] e.k = "num" -> T(e.t)
      [] e.k = "bool" -> Bool
      [] e.k = "numeric" -> NumTy(e.e, sc)
      [] e.k = "tuple" -> LET ts == [k \in DOMAIN e.es |-> ET(e.es[k], sc)] IN IF AllProper(ts) THEN << "tup", ts >> ELSE Ill
      [] e.k = "tproj" -> LET t == ET(e.e, sc) IN IF t[1] = "tup" /\ e.i < Len(t[2]) THEN t[2][e.i + 1] ELSE Ill
      [] e.k = "record" -> LET fs == [k \in DOMAIN e.fs |-> << e.fs[k][1], ET(e.fs[k][2], sc) >>]
                           IN IF \A k \in DOMAIN fs : fs[k][2] # Ill THEN << "rec", fs >> ELSE Ill
      [] e.k = "rproj" -> LET t == ET(e.e, sc)
                              ks == IF t[1] = "rec" THEN {k \in DOMAIN t[2] : t[2][k][1] = e.l} ELSE {}
                          IN IF ks = {} THEN Ill ELSE t[2][CHOOSE k \in ks : \A j \in ks : k <= j][2]
      [] e.k = "variant" -> LET t == ET(e.e, sc) IN IF t = Ill THEN Ill ELSE << "union", (e.l :> t) >>
      [] e.k = "seq" -> SeqOf(Join([k \in DOMAIN e.es |-> ET(e.es[k], sc)], 1, Unknown))
      [] e.k = "match" -> LET t == ET(e.e, sc) IN IF t = Ill \/ e.bs = << >> THEN Ill ELSE Branches(e.bs, 1, t, sc)
      [] e.k = "destr" -> LET t == ET(e.e, sc)
                              r == IF t = Ill THEN << >> ELSE PT(e.p, t, sc)
                          IN IF r = << >> THEN Ill ELSE ET(e.b, r[1])
      [] e.k = "lam" -> Ill
      [] e.k = "rel" -> IF IsNumeric(Unify(ET(e.a, sc), ET(e.b, sc))) THEN Bool ELSE Ill
      [] e.k = "arith" /\ e.op \in {"band", "bor"} -> IF ET(e.a, sc) = Bool /\ ET(e.b, sc) = Bool THEN Bool ELSE Ill
      [] e.k = "arith" -> LET t == Unify(ET(e.a, sc), ET(e.b, sc)) IN IF IsNumeric(t) THEN t ELSE Ill
      [] e.k = "un" -> LET t == ET(e.e, sc)
                       IN IF e.op = "not" THEN (IF t = Bool THEN Bool ELSE Ill) ELSE IF IsNumeric(t) THEN t ELSE Ill
      [] e.k = "as" -> IF IsNumeric(ET(e.e, sc)) THEN T(e.t) ELSE Ill
      [] e.k = "aschar" -> IF IsNumeric(ET(e.e, sc)) THEN T("char") ELSE Ill
      [] e.k = "endian" -> LET n == CASE e.t = "u16" -> 2 [] e.t = "u32" -> 4 [] e.t = "u64" -> 8
                           IN IF ET(e.e, sc) = Bytes(n) THEN T(e.t) ELSE Ill
      [] e.k = "len" -> IF ET(e.e, sc)[1] = "seq" THEN U32 ELSE Ill
      [] e.k = "seqix" -> LET t == ET(e.e, sc) IN IF t[1] = "seq" /\ ET(e.i, sc) = U32 THEN t[2] ELSE Ill
      [] e.k \in {"subseq", "inflate"} ->
            LET t == ET(e.e, sc) IN IF t[1] = "seq" /\ ET(e.s, sc) = U32 /\ ET(e.n, sc) = U32 THEN t ELSE Ill
      [] e.k = "flatmap" -> LET t == ET(e.e, sc)
                                r == IF t[1] = "seq" THEN Body(e.x, t[2], sc) ELSE Ill
                            IN IF r[1] = "seq" THEN r ELSE Ill
      [] e.k = "fmlist" -> LET t == ET(e.e, sc)
                               r == IF t[1] = "seq" THEN Body(e.x, << "tup", << SeqOf(e.vt), t[2] >> >>, sc) ELSE Ill
                           IN IF r[1] = "seq" THEN r ELSE Ill
      [] e.k = "fmaccum" -> LET t == ET(e.e, sc)
                                a == Unify(ET(e.init, sc), e.vt)
                                r == IF t[1] = "seq" /\ a # Ill THEN Body(e.x, << "tup", << a, t[2] >> >>, sc) ELSE Ill
                            IN IF r[1] = "tup" /\ Len(r[2]) = 2 /\ r[2][2][1] = "seq" /\ Unify(r[2][1], a) # Ill
                               THEN r[2][2] ELSE Ill
      [] e.k = "fold" -> LET t == ET(e.e, sc)
                             a == Unify(ET(e.init, sc), e.vt)
                         IN IF t[1] = "seq" /\ a # Ill THEN Unify(Body(e.x, << "tup", << a, t[2] >> >>, sc), a) ELSE Ill
      [] e.k = "find" -> LET t == ET(e.e, sc)
                             q == ET(e.q, sc)
                             u == IF t[1] = "seq" THEN Unify(Body(e.x, t[2], sc), q) ELSE Ill
                         IN IF IsBase(u) THEN OptOf(t[2]) ELSE Ill
      [] e.k = "range" -> LET a == ET(e.a, sc) IN IF IsNumeric(a) THEN SeqOf(Unify(a, ET(e.b, sc))) ELSE Ill
      [] e.k = "dup" -> IF ET(e.n, sc) = U32 THEN SeqOf(ET(e.e, sc)) ELSE Ill
      [] e.k = "lifto" -> IF e.es = << >> THEN OptOf(Unknown) ELSE OptOf(ET(e.es[1], sc))
      [] e.k = "append" -> LET a == ET(e.a, sc)  b == ET(e.b, sc)
                           IN IF a[1] = "seq" /\ b[1] = "seq" THEN SeqOf(Unify(a[2], b[2])) ELSE Ill

-----------------------------------------------------------------------------
RECURSIVE ViewOk(_, _)
ViewOk(v, sc) == IF v.k = "var" THEN v.l \in DOMAIN sc /\ sc[v.l][1] = "wiew"
                 ELSE IsNumeric(ET(v.e, sc)) /\ ViewOk(v.v, sc)

(* M: the items' argument lists; Ts: their types so far. *)
RECURSIVE FT(_, _, _, _), FBranches(_, _, _, _, _, _)
FBranches(bs, k, t, sc, M, Ts) ==
    IF k > Len(bs) THEN Unknown
    ELSE LET r == PT(bs[k][1], t, sc)
             b == IF r = << >> THEN Ill ELSE FT(bs[k][2], r[1], M, Ts)
         IN IF b = Ill THEN Ill ELSE Unify(b, FBranches(bs, k + 1, t, sc, M, Ts))
FT(f, sc, M, Ts) ==
    LET F(g) == FT(g, sc, M, Ts)
        E(e) == ET(e, sc)
        Under(g, l, x) == FT(g, Bind(sc, l, x), M, Ts)
        All(fs) == [k \in DOMAIN fs |-> F(fs[k])]
    IN CASE f.k = "item" ->
              IF f.i + 1 > Len(Ts) THEN Ill
              ELSE LET it == M[f.i + 1]
                   IN IF /\ Len(it.args) = Len(f.args) /\ Len(it.views) = Len(f.views)
                         /\ \A k \in DOMAIN f.args : Unify(it.args[k][2], E(f.args[k])) # Ill
                         /\ \A k \in DOMAIN f.views : ViewOk(f.views[k], sc)
                      THEN Ts[f.i + 1] ELSE Ill
         [] f.k = "fail" -> Empty
         [] f.k \in {"eoi", "align", "skip"} -> Unit
         [] f.k = "byte" -> T("u8")
         [] f.k = "variant" -> LET t == F(f.f) IN IF t = Ill THEN Ill ELSE << "union", (f.l :> t) >>
         [] f.k \in {"union", "nondet"} -> Join(All(f.fs), 1, Unknown)
         [] f.k = "tuple" -> LET ts == All(f.fs) IN IF AllProper(ts) THEN << "tup", ts >> ELSE Ill
         [] f.k = "seq" -> SeqOf(Join(All(f.fs), 1, Unknown))
         [] f.k \in {"rep", "rep1"} -> SeqOf(F(f.f))
         [] f.k = "repc" -> IF IsBase(E(f.e)) THEN SeqOf(F(f.f)) ELSE Ill
         [] f.k = "repb" -> LET a == E(f.lo) IN IF IsBase(a) /\ E(f.hi) = a THEN SeqOf(F(f.f)) ELSE Ill
         [] f.k = "repul" -> LET t == F(f.f) IN IF Body(f.x, t, sc) = Bool THEN SeqOf(t) ELSE Ill
         [] f.k = "repus" -> LET t == F(f.f) IN IF Body(f.x, SeqOf(t), sc) = Bool THEN SeqOf(t) ELSE Ill
         [] f.k = "accum" ->
              LET t == F(f.f)
              IN IF /\ t # Ill
                    /\ Unify(E(f.init), f.vt) # Ill
                    /\ Body(f.done, << "tup", << f.vt, SeqOf(t) >> >>, sc) = Bool
                    /\ Unify(Body(f.upd, << "tup", << f.vt, t >> >>, sc), f.vt) # Ill
                 THEN << "tup", << f.vt, SeqOf(t) >> >> ELSE Ill
         [] f.k = "foreach" -> LET s == E(f.e) IN IF s[1] = "seq" THEN SeqOf(Under(f.f, f.l, Val(s[2]))) ELSE Ill
         [] f.k = "maybe" -> IF E(f.e) = Bool THEN OptOf(F(f.f)) ELSE Ill
         [] f.k \in {"peek", "bits", "hint"} -> F(f.f)
         [] f.k = "peeknot" -> IF F(f.f) = Ill THEN Ill ELSE Unit
         [] f.k = "slice" -> IF IsNumeric(E(f.e)) THEN F(f.f) ELSE Ill
         [] f.k = "reloff" -> IF IsNumeric(E(f.base)) /\ IsNumeric(E(f.off)) THEN F(f.f) ELSE Ill
         [] f.k = "map" -> Body(f.x, F(f.f), sc)
         [] f.k = "where" -> LET t == F(f.f) IN IF Body(f.x, t, sc) = Bool THEN t ELSE Ill
         [] f.k = "compute" -> E(f.e)
         [] f.k = "let" -> LET t == E(f.e) IN IF t = Ill THEN Ill ELSE Under(f.f, f.l, Val(t))
         [] f.k = "letf" -> LET t == F(f.f) IN IF t = Ill THEN Ill ELSE Under(f.g, f.l, Val(t))
         [] f.k = "letview" -> Under(f.f, f.l, << "wiew" >>)
         [] f.k = "mseq" -> IF F(f.f) = Ill THEN Ill ELSE F(f.g)
         [] f.k = "permit" -> Unify(E(f.e), F(f.f))
         [] f.k = "match" -> LET t == E(f.e) IN IF t = Ill \/ f.bs = << >> THEN Ill ELSE FBranches(f.bs, 1, t, sc, M, Ts)
         [] f.k = "dyn" -> IF /\ E(f.len) \in {SeqOf(T("u8")), SeqOf(T("u16"))}
                              /\ \A k \in DOMAIN f.vals : E(f.vals[k]) \in {SeqOf(T("u8")), SeqOf(T("u16"))}
                           THEN Under(f.f, f.l, << "fmt", T("u16") >>) ELSE Ill
         [] f.k = "apply" -> IF f.l \in DOMAIN sc /\ sc[f.l][1] = "fmt" THEN sc[f.l][2] ELSE Ill
         [] f.k = "pos" -> Hole
         [] f.k = "decbytes" -> IF E(f.e) = SeqOf(T("u8")) THEN F(f.f) ELSE Ill
         [] f.k = "lifto" -> IF f.fs = << >> THEN OptOf(Unknown) ELSE OptOf(F(f.fs[1]))
         [] f.k = "capture" -> IF ViewOk(f.v, sc) /\ IsNumeric(E(f.e)) THEN SeqOf(T("u8")) ELSE Ill
         [] f.k = "readarr" -> IF ViewOk(f.v, sc) /\ IsNumeric(E(f.e)) THEN SeqOf(T(f.t)) ELSE Ill
         [] f.k = "reify" -> IF ViewOk(f.v, sc) THEN T("view") ELSE Ill
         [] f.k = "fromview" -> IF ViewOk(f.v, sc) THEN F(f.f) ELSE Ill
         [] f.k = "phantom" -> LET t == F(f.f) IN IF t = Ill THEN Ill ELSE << "phantom", t >>

(* Types of the items, each typed in the scope of its parameters; cut short at the first that has none. *)
RECURSIVE Params(_, _, _), WithViews(_, _, _), Items(_, _)
WithViews(vs, k, sc) == IF k > Len(vs) THEN sc ELSE WithViews(vs, k + 1, Bind(sc, vs[k], << "wiew" >>))
Params(as, k, sc) == IF k > Len(as) THEN sc ELSE Params(as, k + 1, BindV(sc, as[k][1], as[k][2]))
NoScope == [x \in {} |-> << >>]
Items(M, Ts) ==
    IF Len(Ts) = Len(M) THEN Ts
    ELSE LET it == M[Len(Ts) + 1]
             t  == FT(it.f, WithViews(it.views, 1, Params(it.args, 1, NoScope)), M, Ts)
         IN IF t = Ill THEN << Ill >> ELSE Items(M, Append(Ts, t))
TypeOf(M, f) == LET Ts == Items(M, << >>) IN IF Ts = << Ill >> THEN Ill ELSE FT(f, NoScope, M, Ts)

-----------------------------------------------------------------------------
Bits(t) == CASE t \in {"u8", "i8"} -> 8 [] t \in {"u16", "i16"} -> 16 [] t \in {"u32", "i32"} -> 32 [] OTHER -> 64
(* A number stands for a value of a machine type it fits: ranges hold plain machine words, numeric trees exact integers. *)
FitsIn(z, t) == IF z[1] = 1 THEN NFits(z[2], IF t \in Signed THEN Bits(t) - 1 ELSE Bits(t))
                ELSE t \in Signed /\ NLe(z[2], NShl(One, Bits(t) - 1))
IsNumber(v) == v[1] \in Unsigned \cup {"usize", "numeric"}
RECURSIVE Inhabits(_, _)
Inhabits(v, t) ==
    CASE t = Unknown -> TRUE
      [] t = Hole -> IsNumber(v)
      [] t[1] \in Unsigned \cup Signed ->
            CASE v[1] = "numeric" -> v[3] \in {t[1], "auto"} /\ FitsIn(v[2], t[1])
              [] v[1] = "usize" -> t[1] \in Unsigned /\ NFits(v[2], Bits(t[1]))
              [] v[1] \in Unsigned -> v[1] = t[1] /\ NFits(v[2], Bits(t[1]))
              [] OTHER -> FALSE
      [] t[1] \in {"bool", "char", "view"} -> v[1] = t[1]
      [] t[1] = "tup" -> v[1] = "tup" /\ Len(v[2]) = Len(t[2]) /\ \A k \in DOMAIN t[2] : Inhabits(v[2][k], t[2][k])
      [] t[1] = "rec" -> v[1] = "rec" /\ Len(v[2]) = Len(t[2])
                         /\ \A k \in DOMAIN t[2] : v[2][k][1] = t[2][k][1] /\ Inhabits(v[2][k][2], t[2][k][2])
      [] t[1] = "union" -> v[1] = "var" /\ v[2] \in DOMAIN t[2] /\ Inhabits(v[3], t[2][v[2]])
      [] t[1] = "seq" -> v[1] = "seq" /\ \A k \in DOMAIN v[2] : Inhabits(v[2][k], t[2])
      [] t[1] = "opt" -> v[1] = "opt" /\ \A k \in DOMAIN v[2] : Inhabits(v[2][k], t[2])
      [] t[1] = "phantom" -> v[1] = "phantom"
      [] OTHER -> FALSE

(* Recorded: a program, the type reported for it (Ill: refused), values it decoded. *)
Recs == ndJsonDeserialize(File)
Say(n, what, d) == PrintT("BAD " \o ToJson([n |-> n, id |-> Recs[n].id, what |-> what, d |-> d]))
Check(n) ==
    LET r == Recs[n]
        t == TypeOf(r.M, r.f)
    IN /\ IF t = r.ty THEN TRUE ELSE Say(n, "type", << t, r.ty, r.msg >>)
       /\ \A k \in DOMAIN r.cases : IF r.ty = Ill \/ Inhabits(r.cases[k].v, r.ty) THEN TRUE
                                    ELSE Say(n, "value", << r.cases[k], r.ty >>)
Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
=============================================================================
