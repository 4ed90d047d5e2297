------------------------------- MODULE Numeric -------------------------------
(***************************************************************************)
(* Runs of integer expressions (meaning: NumSem).                          *)
(*                                                                         *)
(* Judged here (trace validation, one record = one tree or one function):  *)
(*   eval      exact evaluation, with and without the representability flag*)
(*   fn        the machine-level functions generated code calls            *)
(*   emitted   generated code for a tree, run on several environments      *)
(***************************************************************************)
EXTENDS NumSem, Json, FiniteSets
CONSTANTS File, Shards

RECURSIVE HasAuto(_)
HasAuto(e) == CASE e.k = "c" -> e.r = "auto" [] e.k = "v" -> FALSE
                [] e.k = "b" -> HasAuto(e.a) \/ HasAuto(e.b) [] OTHER -> HasAuto(e.a)

Rel(op, c) == CASE op = "eq" -> c = 0 [] op = "ne" -> c # 0 [] op = "lt" -> c < 0
                [] op = "le" -> c <= 0 [] op = "gt" -> c > 0 [] op = "ge" -> c >= 0

(* ------------------------------------------------------------- verdicts *)
(* evaluated directly: with and without the flag *)
EvalOk(e, c) ==
    LET w == Ev(e, c.env)
    IN IF w = Err("no bits") THEN TRUE     \* documented precondition of the cast
       ELSE IF w[1] = "err" THEN c.eval[1] = "err" /\ c.strict[1] = "err"
       ELSE /\ c.eval = << "ok", w[2], w[3] >>
            /\ c.strict = << "ok", w[2], w[3], w[4] >>
(* evaluated inside a format by either interpreter, which panic on failure *)
RunOk(e, c) ==
    LET w == Ev(e, c.env)
    IN IF w = Err("no bits") THEN TRUE
       ELSE IF w[1] = "err" THEN c.out[1] = "panic" /\ c.loc[1] = "panic"
       ELSE c.out = << "ok", w[2], w[3] >> /\ c.loc = c.out
(* comparison with another tree, or (m) with a plain machine number *)
RelOk(e, c) ==
    LET a == Ev(e, c.env)
        b == Ev(c.other, c.env)
        def == a[1] = "ok" /\ b[1] = "ok" /\ (c.m => (a[3] \in {"auto", b[3]} /\ Fits(a[2], b[3])))
        r == Rel(c.op, IF c.flip THEN ZCmp(b[2], a[2]) ELSE ZCmp(a[2], b[2]))
    IN IF Err("no bits") \in {a, b} THEN TRUE
       ELSE IF ~def THEN c.out[1] = "panic" /\ c.loc[1] = "panic"
       ELSE c.out = << "ok", r >> /\ c.loc = c.out
(* a machine-level function: op, operand types, result type *)
FnOk(f, c) ==
    LET x == c.x
        y == c.y
        exact == IF f.ar = 2 THEN Bin(f.op, x, y) ELSE IF f.op = "cast" THEN x ELSE Una(f.op, x)
    IN IF f.ar = 2 /\ f.op \in {"div", "rem"} /\ ZIsZero(y) THEN c.out = << "nan" >>
       \* a remainder by a negative number is not defined by the model; no wrong number may come out
       ELSE IF f.ar = 2 /\ f.op = "rem" /\ y[1] = -1 THEN c.out \in { << "nan" >>, << "ok", exact >> }
       ELSE IF Fits(exact, f.o) THEN c.out = << "ok", exact >>
       ELSE c.out = << "out", exact >> \/ (f.op = "div" /\ c.out = << "nan" >>)
(* generated code: a number only if it is the exact one and fits; an error only if something does not fit.
   Where the tree has no value (a remainder by a negative number) it is not bound, except that it must not crash. *)
EmittedOk(e, c) ==
    LET w == Ev(e, c.env)
    IN CASE c.out[1] = "ok" -> w[1] = "err" \/ (c.out[2] = w[2] /\ (HasAuto(e) \/ w[4]))
         [] c.out[1] = "err" -> HasAuto(e) \/ w[1] = "err" \/ ~w[4]
         [] OTHER -> FALSE

Ok(r, c) == CASE c.t = "eval" -> EvalOk(r.e, c) [] c.t = "run" -> RunOk(r.e, c) [] c.t = "rel" -> RelOk(r.e, c)
              [] c.t = "fn" -> FnOk(r.e, c) [] c.t = "emitted" -> EmittedOk(r.e, c)
Want(r, c) == IF c.t = "fn" THEN "exact arithmetic" ELSE Ev(r.e, c.env)

(* ------------------------------------------------------------ the trace *)
Trace == ndJsonDeserialize(File)
VARIABLE n
Check(k) == \A i \in 1 .. Len(Trace[k].cases) :
              LET c == Trace[k].cases[i]
              IN IF Ok(Trace[k], c) THEN TRUE
                 ELSE PrintT("BAD " \o ToJson([n |-> k, case |-> c, want |-> Want(Trace[k], c)]))
Init == n \in { k \in 1 .. Shards : k <= Len(Trace) }
Next == /\ Check(n) = TRUE
        /\ n + Shards <= Len(Trace)
        /\ n' = n + Shards
Spec == Init /\ [][Next]_n
=============================================================================
