------------------------------- MODULE NumSem --------------------------------
(***************************************************************************)
(* Meaning of integer expressions over machine types: exact values, the    *)
(* type in force at each node, and the failures.  An integer is            *)
(* <<sign, magnitude>> with sign 1 or -1 (zero has sign 1) and a BigNat     *)
(* magnitude.                                                              *)
(***************************************************************************)
EXTENDS BigNat, TLC

(* ------------------------------------------------------------ integers *)
Z(s, m) == IF m = << >> THEN << 1, m >> ELSE << s, m >>
ZNeg(a) == Z(0 - a[1], a[2])
ZAbs(a) == << 1, a[2] >>
ZAdd(a, b) == IF a[1] = b[1] THEN Z(a[1], NAdd(a[2], b[2]))
              ELSE IF NLe(b[2], a[2]) THEN Z(a[1], NSub(a[2], b[2])) ELSE Z(b[1], NSub(b[2], a[2]))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == Z(a[1] * b[1], NMul(a[2], b[2]))
ZDiv(a, b) == Z(a[1] * b[1], NDiv(a[2], b[2]))          \* towards zero
ZRem(a, b) == Z(a[1], NRem(a[2], b[2]))                 \* sign of the dividend
ZOne == << 1, One >>
ZIsZero(a) == a[2] = << >>
ZCmp(a, b) == IF a[1] # b[1] THEN a[1] ELSE IF a[1] = 1 THEN NCmp(a[2], b[2]) ELSE NCmp(b[2], a[2])

(* --------------------------------------------------------------- types *)
Bits == [u8 |-> 8, u16 |-> 16, u32 |-> 32, u64 |-> 64, i8 |-> 8, i16 |-> 16, i32 |-> 32, i64 |-> 64]
Signed(r) == r \in {"i8", "i16", "i32", "i64"}
Fits(z, r) == IF r = "auto" THEN TRUE
              ELSE IF ~Signed(r) THEN z[1] = 1 /\ NFits(z[2], Bits[r])
              ELSE IF z[1] = 1 THEN NFits(z[2], Bits[r] - 1) ELSE NLe(z[2], NPow2(Bits[r] - 1))
(* the number with the same low bits that the type holds: Rust's `as` *)
Wrap(z, r) == LET w == Bits[r]
                  low == NLow(z[2], w)
                  up == IF z[1] = 1 \/ low = << >> THEN low ELSE NSub(NPow2(w), low)
              IN IF Signed(r) /\ ~NFits(up, w - 1) THEN << -1, NSub(NPow2(w), up) >> ELSE << 1, up >>

(* ---------------------------------------------------------- evaluation *)
(* <<"ok", value, type, every node fits its type>> or <<"err", why>> *)
Err(w) == << "err", w >>
Val(z, r, ok) == << "ok", z, r, ok /\ Fits(z, r) >>
Bin(op, x, y) == CASE op = "add" -> ZAdd(x, y) [] op = "sub" -> ZSub(x, y) [] op = "mul" -> ZMul(x, y)
                   [] op = "div" -> ZDiv(x, y) [] op = "rem" -> ZRem(x, y)
Refused(op, y) == (op = "div" /\ ZIsZero(y)) \/ (op = "rem" /\ (ZIsZero(y) \/ y[1] = -1))
Una(op, x) == CASE op = "neg" -> ZNeg(x) [] op = "abs" -> ZAbs(x)
                [] op = "succ" -> ZAdd(x, ZOne) [] op = "pred" -> ZSub(x, ZOne)
RECURSIVE Ev(_, _)
Ev(e, env) ==
    CASE e.k = "c" -> Val(e.z, e.r, TRUE)
      [] e.k = "v" -> LET hits == { i \in 1 .. Len(env) : env[i][1] = e.l }
                      IN IF hits = {} THEN Err("unknown variable")
                         ELSE LET v == env[CHOOSE i \in hits : \A j \in hits : j <= i]
                              IN IF v[3] = "other" THEN Err("not a number") ELSE Val(v[2], v[3], TRUE)
      [] e.k = "b" ->
           LET a == Ev(e.a, env)
               b == Ev(e.b, env)
           IN IF a[1] = "err" THEN a ELSE IF b[1] = "err" THEN b
              ELSE IF Refused(e.op, b[2]) THEN Err("divisor")
              ELSE LET z == Bin(e.op, a[2], b[2])
                       ok == a[4] /\ b[4]
                   IN IF e.r # "none" THEN Val(z, e.r, ok)
                      ELSE IF a[3] = b[3] \/ b[3] = "auto" THEN Val(z, a[3], ok)
                      ELSE IF a[3] = "auto" THEN Val(z, b[3], ok)
                      ELSE Err("ambiguous")
      [] e.k = "u" ->
           LET a == Ev(e.a, env)
           IN IF a[1] = "err" THEN a
              ELSE Val(Una(e.op, a[2]), IF e.r = "none" THEN a[3] ELSE e.r, a[4])
      [] e.k = "cast" ->
           LET a == Ev(e.a, env)
           IN IF a[1] = "err" THEN a
              ELSE IF ~e.bit THEN Val(a[2], e.r, a[4])
              ELSE IF a[3] = "auto" THEN Val(a[2], e.r, a[4])
              \* a number that its own type cannot hold has no bits to reinterpret
              ELSE IF ~Fits(a[2], a[3]) THEN Err("no bits")
              ELSE Val(Wrap(a[2], e.r), e.r, a[4])

(* The variables an expression mentions. *)
RECURSIVE NumVars(_)
NumVars(e) == CASE e.k = "c" -> {} [] e.k = "v" -> {e.l} [] e.k = "b" -> NumVars(e.a) \cup NumVars(e.b) [] OTHER -> NumVars(e.a)
=============================================================================
