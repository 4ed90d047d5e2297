------------------------------ MODULE Printing ------------------------------
(***************************************************************************)
(* How the text of an expression is to be read.  The printers declare a    *)
(* precedence for every operator (src/precedence.rs): this module is the   *)
(* grammar those precedences define, as a parser from tokens to trees.     *)
(*                                                                         *)
(* Loosest to tightest:                                                    *)
(*   binders (x -> e, pat-bind [p = h] e) and numeric ++e, --e             *)
(*   == != < > <= >=      ||      &&      |      &      << >>              *)
(*   + - ++               * / %   ..      e as t  prefix operators  e.n    *)
(* Infix operators group to the left.  Operators between which no order is *)
(* declared (arithmetic and bitwise or logical; * and / %) may not meet    *)
(* without parentheses, nor may two comparisons.                           *)
(*                                                                         *)
(* A tree is << name >> or << operator, << operands >> >>; a token is      *)
(* << text, what it is >>.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS File, Shards
VARIABLE i

Level(op) ==
    CASE op \in {"==", "!=", "<", ">", "<=", ">="} -> 1
      [] op = "||" -> 2
      [] op = "&&" -> 3
      [] op = "|" -> 4
      [] op = "&" -> 5
      [] op \in {"<<", ">>"} -> 6
      [] op \in {"+", "-", "++"} -> 7
      [] op \in {"*", "/", "%"} -> 8
      [] op = ".." -> 9
      [] OTHER -> 0
Class(op) ==
    CASE Level(op) = 1 -> "cmp"
      [] Level(op) \in {2, 3} -> "log"
      [] Level(op) \in {4, 5, 6} -> "bit"
      [] op = "*" -> "mul"
      [] op \in {"/", "%"} -> "div"
      [] Level(op) = 7 -> "add"
      [] OTHER -> "none"
Arith == {"add", "mul", "div"}
Unordered(a, b) ==
    \/ a \in Arith /\ b \in {"bit", "log"}
    \/ b \in Arith /\ a \in {"bit", "log"}
    \/ {a, b} = {"mul", "div"}
    \/ a = "cmp" /\ b = "cmp"

\* prefix operators, with the number of arguments given in parentheses before the operand
Prefixes == [p \in {"!", "pred", "succ", "as-u8", "as-u16", "as-u32", "as-u64", "as-char", "u16be", "u16le", "u32be", "u32le",
                    "u64be", "u64le", "seq-length", "some", "~", "abs"} |-> 0]
            @@ [p \in {"seq-ix", "flat-map", "flat-map-list", "dup"} |-> 1]
            @@ [p \in {"sub-seq", "sub-seq-inflate", "flat-map-accum", "left-fold", "binary-search", "linear-search"} |-> 2]

Bad == [ok |-> FALSE, e |-> << >>, at |-> 0, c |-> "none"]
Is(ts, k, what) == k <= Len(ts) /\ ts[k][2] = what
Res(e, k) == [ok |-> TRUE, e |-> e, at |-> k, c |-> "none"]

RECURSIVE Climb(_, _, _), Loop(_, _, _), Operand(_, _), Projs(_, _), Args(_, _, _, _)
\* comma-separated arguments up to the closing parenthesis
Args(ts, k, n, acc) ==
    LET r == Climb(ts, k, 0)
    IN IF ~r.ok THEN Bad
       ELSE IF n = 1 THEN (IF Is(ts, r.at, ")") THEN Res(Append(acc, r.e), r.at + 1) ELSE Bad)
       ELSE IF Is(ts, r.at, ",") THEN Args(ts, r.at + 1, n - 1, Append(acc, r.e)) ELSE Bad
Projs(ts, r) ==
    IF r.ok /\ Is(ts, r.at, "proj") THEN Projs(ts, Res(<< ts[r.at][1], << r.e >> >>, r.at + 1)) ELSE r
\* what is after the body of a binder belongs to the body
Greedy(ts, k, op, before) ==
    LET r == Climb(ts, k, 0) IN IF r.ok THEN Res(<< op, before \o << r.e >> >>, r.at) ELSE Bad
Operand(ts, k) ==
    IF k > Len(ts) THEN Bad
    ELSE LET w == ts[k][2]
             r == CASE w = "(" -> LET b == Climb(ts, k + 1, 0)
                                  IN IF b.ok /\ Is(ts, b.at, ")") THEN Res(b.e, b.at + 1) ELSE Bad
                    [] w = "leaf" /\ Is(ts, k + 1, "->") -> Greedy(ts, k + 2, "->", << << ts[k][1] >> >>)
                    [] w = "leaf" -> Res(<< ts[k][1] >>, k + 1)
                    [] w = "match" -> LET b == Climb(ts, k + 1, 0)
                                      IN IF b.ok /\ Is(ts, b.at, "{...}") THEN Res(<< "match", << b.e >> >>, b.at + 1) ELSE Bad
                    [] w = "{" -> LET b == Climb(ts, k + 3, 0)
                                  IN IF Is(ts, k + 2, ":=") /\ b.ok /\ Is(ts, b.at, "}")
                                     THEN Res(<< "{" \o ts[k + 1][1], << b.e >> >>, b.at + 1) ELSE Bad
                    [] w = "pat-bind" ->
                          LET b == Climb(ts, k + 4, 0)
                          IN IF Is(ts, k + 1, "[") /\ Is(ts, k + 2, "leaf") /\ Is(ts, k + 3, "=") /\ b.ok /\ Is(ts, b.at, "]")
                             THEN Greedy(ts, b.at + 1, "pat-bind", << << ts[k + 2][1] >>, b.e >>)
                             ELSE Bad
                    [] w \in {"++", "--"} -> Greedy(ts, k + 1, ts[k][1], << >>)
                    [] w \in DOMAIN Prefixes ->
                          LET a == IF Prefixes[w] = 0 THEN Res(<< >>, k + 1)
                                   ELSE IF Is(ts, k + 1, "(") THEN Args(ts, k + 2, Prefixes[w], << >>) ELSE Bad
                              o == IF a.ok THEN Operand(ts, a.at) ELSE Bad
                          IN IF o.ok THEN Res(<< ts[k][1], a.e \o << o.e >> >>, o.at) ELSE Bad
                    [] OTHER -> Bad
         IN Projs(ts, r)
Loop(ts, l, min) ==
    IF ~l.ok \/ l.at > Len(ts) THEN l
    ELSE IF ts[l.at][2] = "as" THEN Loop(ts, Res(<< ts[l.at][1], << l.e >> >>, l.at + 1), min)
    ELSE LET op == ts[l.at][2]
             v  == Level(op)
         IN IF v = 0 \/ v < min THEN l
            ELSE LET r == Climb(ts, l.at + 1, v + 1)
                 IN IF ~r.ok \/ Unordered(l.c, Class(op)) \/ Unordered(r.c, Class(op)) THEN Bad
                    ELSE Loop(ts, [Res(<< ts[l.at][1], << l.e, r.e >> >>, r.at) EXCEPT !.c = Class(op)], min)
Climb(ts, k, min) == Loop(ts, Operand(ts, k), min)

Parse(ts) == LET r == Climb(ts, 1, 0) IN IF r.ok /\ r.at = Len(ts) + 1 THEN r.e ELSE << "unreadable", << >> >>

(* Chains of an associative operator may be regrouped: a + (b + c) is printed as a + b + c. *)
RECURSIVE Norm(_), Terms(_, _), Sum(_)
Assoc == {"++", "*", "&", "|", "&&", "||"}
Terms(e, op) == IF Len(e) = 2 /\ e[1] = op /\ Len(e[2]) = 2 THEN Terms(e[2][1], op) \o Terms(e[2][2], op) ELSE << Norm(e) >>
Sum(e) ==
    IF Len(e) = 2 /\ Len(e[2]) = 2 /\ e[1] = "+" THEN Sum(e[2][1]) \o Sum(e[2][2])
    ELSE IF Len(e) = 2 /\ Len(e[2]) = 2 /\ e[1] = "-" THEN Append(Sum(e[2][1]), << "less", << Norm(e[2][2]) >> >>)
    ELSE << Norm(e) >>
Norm(e) ==
    IF Len(e) = 1 THEN e
    ELSE IF Len(e[2]) = 2 /\ e[1] \in {"+", "-"} THEN << "sum", Sum(e) >>
    ELSE IF Len(e[2]) = 2 /\ e[1] \in Assoc THEN << e[1], Terms(e, e[1]) >>
    ELSE << e[1], [k \in DOMAIN e[2] |-> Norm(e[2][k])] >>

Recs == ndJsonDeserialize(File)
\* the text of a numeric expression is exact; the other printer regroups
Faithful(c) == LET p == Parse(c.toks) IN IF c.exact THEN p = c.e ELSE Norm(p) = Norm(c.e)
Check(n) ==
    \A k \in DOMAIN Recs[n].cases :
        LET c == Recs[n].cases[k]
        IN IF Faithful(c) THEN TRUE ELSE PrintT("BAD " \o ToJson([n |-> n, id |-> Recs[n].id, what |-> "text", d |-> << c.e, c.text, Parse(c.toks) >>]))

Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
=============================================================================
