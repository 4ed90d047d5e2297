------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* Views, scopes, cursors and zero-copy arrays over one buffer.            *)
(*                                                                         *)
(* An object is a window lo..hi of the buffer (bytes lo+1..hi), a cursor   *)
(* in such a window, or an array of n elements of T.size bytes, a stride   *)
(* apart, starting at lo.  Every operation either yields exactly the bytes *)
(* at the positions asked for, or another object inside the same window,   *)
(* or is refused because some byte asked for lies outside the window.      *)
(* Amounts above 1000 stand for numbers near the machine word limits.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Buf,        \* the bytes
          Types,      \* element types: [n |-> name, size |-> bytes]
          Amounts,    \* offsets, lengths and counts tried
          Strides,    \* added to the element size
          Nibbles
VARIABLE s

N == Len(Buf)
TooSmall == 2000   \* a stride below the element size
View(lo) == [o |-> "view", lo |-> lo, hi |-> N]
Scope(lo, hi) == [o |-> "scope", lo |-> lo, hi |-> hi]
Ctxt(lo, hi, at) == [o |-> "ctxt", lo |-> lo, hi |-> hi, at |-> at]
Arr(lo, n, t, st) == [o |-> "arr", lo |-> lo, n |-> n, t |-> t, st |-> st]
None == [o |-> "none"]

Bytes(lo, k) == SubSeq(Buf, lo + 1, lo + k)
Err(t) == [r |-> << "err" >>, t |-> t]
Val(v, t) == [r |-> << "val", v >>, t |-> t]
Obj(t) == [r |-> << "obj" >>, t |-> t]
(* an operation that consumes from a cursor and yields an object *)
Both(c, t) == [r |-> << "obj2", c >>, t |-> t]

Size(st) == st.hi - st.lo
Avail(st) == st.hi - st.at

Op(n, a, b, t) == [n |-> n, a |-> a, b |-> b, t |-> t]
NoT == [n |-> "-", size |-> 0]

Elem(st, i) == Bytes(st.lo + (i - 1) * st.st, st.t.size)
Sorted(st) == st.t.n = "U8" /\ st.n > 0 /\ \A i \in 1 .. (st.n - 1) : Elem(st, i)[1] <= Elem(st, i + 1)[1]

ViewOps == {Op("read_len", a, 0, NoT) : a \in Amounts} \cup {Op("offset", a, 0, NoT) : a \in Amounts}
           \cup {Op("read_u16be", 0, 0, NoT)}
           \cup {Op("array", a, 0, t) : a \in Amounts, t \in Types}
           \cup (IF s.o = "view" /\ s.lo = 0 THEN {Op("to_scope", 0, 0, NoT)} ELSE {})
ScopeOps == {Op("offset", a, 0, NoT) : a \in Amounts} \cup {Op("offset_length", a, b, NoT) : a \in Amounts, b \in Amounts}
            \cup {Op("data", 0, 0, NoT), Op("ctxt", 0, 0, NoT)} \cup {Op("read", 0, 0, t) : t \in Types}
CtxtOps == {Op("scope", 0, 0, NoT), Op("available", 0, 0, NoT)}
           \cup {Op("read", 0, 0, t) : t \in Types}
           \cup {Op("read_array", a, 0, t) : a \in Amounts, t \in Types}
           \cup {Op("read_array_dep", a, 0, t) : a \in Amounts, t \in Types}
           \cup {Op("read_array_upto", a, 0, t) : a \in Amounts, t \in Types}
           \cup {Op("read_array_stride", a, b, t) : a \in Amounts, b \in Strides, t \in Types}
           \cup {Op("read_scope", a, 0, NoT) : a \in Amounts} \cup {Op("read_slice", a, 0, NoT) : a \in Amounts}
           \cup {Op("until_nibble", a, 0, NoT) : a \in Nibbles}
ArrOps == {Op("items", 0, 0, NoT), Op("len", 0, 0, NoT)} \cup {Op("item", a, 0, NoT) : a \in Amounts}
          \cup (IF s.o = "arr" /\ Sorted(s) THEN {Op("search", a, 0, NoT) : a \in 0 .. 255} ELSE {})
Ops(st) == CASE st.o = "view" -> ViewOps
             [] st.o = "scope" -> ScopeOps
             [] st.o = "ctxt" -> CtxtOps
             [] st.o = "arr" -> ArrOps
             [] OTHER -> {}

(* Where a sorted array holds x, or where x would be inserted. *)
Found(st, x) == LET I == {i \in 1 .. st.n : Elem(st, i)[1] = x}
                IN IF I # {} THEN << "found", {i - 1 : i \in I} >>
                   ELSE << "insert", {Cardinality({i \in 1 .. st.n : Elem(st, i)[1] < x})} >>

HasNibble(b, x) == b \div 16 = x \/ b % 16 = x
TakeArr(st, n, t, gap) ==
    IF n * gap <= Avail(st)
    THEN Both([st EXCEPT !.at = st.at + n * gap], Arr(st.at, n, t, gap))
    ELSE Err(None)
Sub(st, a, b) == (* offset a, length b of a window *)
    IF a + b <= Size(st) THEN Obj(Scope(st.lo + a, st.lo + a + b))
    ELSE IF b = 0 THEN Obj(Scope(st.hi, st.hi)) ELSE Err(None)

Res(st, op) ==
    CASE st.o = "view" ->
          (CASE op.n = "read_len" -> IF op.a <= Size(st) THEN Val(Bytes(st.lo, op.a), None) ELSE Err(None)
             [] op.n = "offset" -> IF op.a <= Size(st) THEN Obj(View(st.lo + op.a)) ELSE Err(None)
             [] op.n = "read_u16be" -> IF Size(st) >= 2 THEN Val(Bytes(st.lo, 2), None) ELSE Err(None)
             [] op.n = "array" -> IF op.a * op.t.size <= Size(st) THEN Obj(Arr(st.lo, op.a, op.t, op.t.size)) ELSE Err(None)
             [] op.n = "to_scope" -> Obj(Scope(st.lo, st.hi)))
      [] st.o = "scope" ->
          (CASE op.n = "offset" -> IF op.a <= Size(st) THEN Obj(Scope(st.lo + op.a, st.hi)) ELSE Obj(Scope(st.hi, st.hi))
             [] op.n = "offset_length" -> Sub(st, op.a, op.b)
             [] op.n = "data" -> Val(Bytes(st.lo, Size(st)), None)
             [] op.n = "ctxt" -> Obj(Ctxt(st.lo, st.hi, st.lo))
             [] op.n = "read" -> IF op.t.size <= Size(st) THEN Val(Bytes(st.lo, op.t.size), None) ELSE Err(None))
      [] st.o = "ctxt" ->
          (CASE op.n = "scope" -> Obj(Scope(st.at, st.hi))
             [] op.n = "available" -> Val(<< IF Avail(st) > 0 THEN 1 ELSE 0 >>, None)
             [] op.n = "read" -> IF op.t.size <= Avail(st)
                                 THEN Val(Bytes(st.at, op.t.size), [st EXCEPT !.at = st.at + op.t.size]) ELSE Err(None)
             [] op.n \in {"read_array", "read_array_dep"} -> TakeArr(st, op.a, op.t, op.t.size)
             [] op.n = "read_array_upto" -> LET m == Avail(st) \div op.t.size
                                            IN TakeArr(st, IF op.a < m THEN op.a ELSE m, op.t, op.t.size)
             [] op.n = "read_array_stride" -> IF op.b = TooSmall THEN Err(None)
                                              ELSE TakeArr(st, op.a, op.t, op.t.size + op.b)
             [] op.n = "read_scope" -> IF op.a <= Avail(st)
                                       THEN Both([st EXCEPT !.at = st.at + op.a], Scope(st.at, st.at + op.a)) ELSE Err(None)
             [] op.n = "read_slice" -> IF op.a <= Avail(st)
                                       THEN Val(Bytes(st.at, op.a), [st EXCEPT !.at = st.at + op.a]) ELSE Err(None)
             [] op.n = "until_nibble" ->
                  LET I == {i \in 1 .. Avail(st) : HasNibble(Buf[st.at + i], op.a)}
                  IN IF I = {} THEN Err(None)
                     ELSE LET k == CHOOSE i \in I : \A j \in I : i <= j
                          IN Val(Bytes(st.at, k), [st EXCEPT !.at = st.at + k]))
      [] st.o = "arr" ->
          (CASE op.n = "items" -> Val([i \in 1 .. st.n |-> Elem(st, i)], None)
             [] op.n = "len" -> Val(<< st.n >>, None)
             [] op.n = "item" -> IF op.a < st.n THEN Val(Elem(st, op.a + 1), None) ELSE Err(None)
             [] op.n = "search" -> Val(Found(st, op.a), None))

Next0(res) == IF res.r[1] = "obj2" THEN {res.t, res.r[2]} ELSE {res.t}
Init == s = View(0)
Next == \E op \in Ops(s) : \E t \in Next0(Res(s, op)) : t.o # "none" /\ s' = t
Spec == Init /\ [][Next]_s

(* Everything reachable stays inside the buffer. *)
Contained == /\ s.o \in {"view", "scope", "ctxt"} => s.lo <= s.hi /\ s.hi <= N
             /\ s.o = "ctxt" => s.lo <= s.at /\ s.at <= s.hi
             /\ s.o = "arr" => s.lo + s.n * s.st <= N /\ s.st >= s.t.size
Emit == PrintT("ST " \o ToJson([s |-> s, ops |-> {<< op, Res(s, op) >> : op \in Ops(s)}]))
=============================================================================
