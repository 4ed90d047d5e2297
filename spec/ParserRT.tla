------------------------------ MODULE ParserRT ------------------------------
(***************************************************************************)
(* State machine of the parser runtime that every generated decoder runs   *)
(* on (doodle::parser::Parser).                                            *)
(*                                                                         *)
(* The specification is deliberately stated in ONE unit, absolute bits     *)
(* from the start of the buffer, plus a mode.  The implementation keeps    *)
(* two incomparable representations of an offset (whole bytes, or a start  *)
(* byte with a bit count); which representation it keeps is not part of    *)
(* the specification.                                                      *)
(*                                                                         *)
(* pos    absolute position in bits                                        *)
(* start  -1 in byte mode, otherwise the byte at which bit mode was        *)
(*        entered (alignment and the bit count are relative to it)         *)
(* stk    open contexts, oldest first                                      *)
(* failed an error has been reported from which the only legal way forward *)
(*        is to fall back to an enclosing choice point                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS
    Buf,        \* the buffer: a sequence of bytes
    Base,       \* absolute offset of the first byte of the buffer
    MaxDepth,   \* bound on the number of simultaneously open contexts
    Amounts,    \* arguments tried for relative advances
    SliceSizes, \* arguments tried for slice lengths
    Aligns,     \* arguments tried for alignments
    AllowBits,  \* whether bit mode is explored
    Emit        \* whether every transition is printed as JSON

VARIABLES pos, start, stk, failed
vars == <<pos, start, stk, failed>>

Len8 == 8 * Len(Buf)
InBits == start >= 0
Unit == IF InBits THEN 1 ELSE 8
Here == <<pos, start>>

Frame(kind, end) == [kind |-> kind, end |-> end, save |-> Here]

(* Innermost limit.  A slice bounds everything opened inside it.           *)
RECURSIVE LimitOf(_, _)
LimitOf(s, n) ==
    IF n = 0 THEN Len8
    ELSE IF s[n].kind = "slice" THEN s[n].end
    ELSE LimitOf(s, n - 1)
Limit == LimitOf(stk, Len(stk))

RECURSIVE TopIndex(_, _, _)
TopIndex(s, n, kinds) ==
    IF n = 0 THEN 0 ELSE IF s[n].kind \in kinds THEN n ELSE TopIndex(s, n - 1, kinds)

Pow2(n) == 2 ^ n
BitAt(p) == (Buf[(p \div 8) + 1] \div Pow2(p % 8)) % 2
ByteAt(p) == Buf[(p \div 8) + 1]

(* What a caller can see of a state. *)
Obs(p, s, st) ==
    [byte |-> p \div 8,
     bit  |-> IF s >= 0 THEN p % 8 ELSE -1,
     read |-> IF s >= 0 THEN p - 8 * s ELSE -1,
     rem  |-> (LimitOf(st, Len(st)) - p) \div (IF s >= 0 THEN 1 ELSE 8)]

StateKey(p, s, st, f) == ToString(<<p, s, st, f>>)

Out(op, arg, res) ==
    IF Emit
    THEN PrintT("EDGE " \o ToJson(
            [s |-> StateKey(pos, start, stk, failed),
             op |-> op, arg |-> arg, res |-> res,
             t |-> StateKey(pos', start', stk', failed'),
             f |-> failed',
             obs |-> Obs(pos', start', stk')]))
    ELSE TRUE

Init == /\ pos = 0
        /\ start = -1
        /\ stk = << >>
        /\ failed = FALSE

Live == ~failed
Same == UNCHANGED vars

------------------------------------------------------------------------------
ReadByte ==
    /\ Live
    /\ IF pos + Unit <= Limit
       THEN /\ pos' = pos + Unit
            /\ UNCHANGED <<start, stk, failed>>
            /\ Out("read_byte", 0, <<"ok", IF InBits THEN BitAt(pos) ELSE ByteAt(pos)>>)
       ELSE Same /\ Out("read_byte", 0, <<"err", "overrun">>)

Advance(n) ==
    /\ Live
    /\ IF pos + n * Unit <= Limit
       THEN /\ pos' = pos + n * Unit
            /\ UNCHANGED <<start, stk, failed>>
            /\ Out("advance_by", n, <<"ok", 0>>)
       ELSE Same /\ Out("advance_by", n, <<"err", "overrun">>)

SkipRemainder ==
    /\ Live
    /\ pos' = Limit
    /\ UNCHANGED <<start, stk, failed>>
    /\ Out("skip_remainder", 0, <<"ok", 0>>)

(* Alignment counts from the start of the buffer in byte mode and from the *)
(* entry into bit mode otherwise.                                          *)
Align(n) ==
    /\ Live
    /\ LET rel == IF InBits THEN pos - 8 * start ELSE Base + pos \div 8
           pad == (n - (rel % n)) % n
       IN IF pos + pad * Unit <= Limit
          THEN /\ pos' = pos + pad * Unit
               /\ UNCHANGED <<start, stk, failed>>
               /\ Out("skip_align", n, <<"ok", 0>>)
          ELSE Same /\ Out("skip_align", n, <<"err", "overrun">>)

EnterBits ==
    /\ Live /\ AllowBits
    /\ IF InBits
       THEN Same /\ Out("enter_bits_mode", 0, <<"err", "mode">>)
       ELSE /\ start' = pos \div 8
            /\ UNCHANGED <<pos, stk, failed>>
            /\ Out("enter_bits_mode", 0, <<"ok", 0>>)

(* Bit mode is left in the context it was entered in (a finished choice    *)
(* may still be open: it stays open until something closes it).            *)
EscapeBits ==
    /\ Live /\ AllowBits
    /\ \A i \in 1..Len(stk) : stk[i].kind = "alt" \/ stk[i].save[2] = -1
    /\ IF ~InBits
       THEN Same /\ Out("escape_bits_mode", 0, <<"err", "mode">>)
       ELSE /\ start' = -1
            /\ pos' = 8 * ((pos + 7) \div 8)
            /\ UNCHANGED <<stk, failed>>
            /\ Out("escape_bits_mode", 0, <<"ok", pos - 8 * start>>)

StartSlice(n) ==
    /\ Live
    /\ Len(stk) < MaxDepth
    /\ IF pos + n * Unit <= Limit
       THEN /\ stk' = Append(stk, Frame("slice", pos + n * Unit))
            /\ UNCHANGED <<pos, start, failed>>
            /\ Out("start_slice", n, <<"ok", 0>>)
       ELSE Same /\ Out("start_slice", n, <<"err", "unstackable">>)

(* Closing a slice commits any nondeterministic choice still open in it,   *)
(* skips what was left of it and returns to the mode it was opened in.     *)
(* Closing across an open peek/seek is a usage error and not specified.    *)
EndSlice ==
    /\ Live
    /\ LET n == TopIndex(stk, Len(stk), {"slice", "peek", "peeknot", "seek"})
       IN IF n = 0
          THEN /\ failed' = TRUE       \* not recoverable
               /\ stk' = << >>
               /\ UNCHANGED <<pos, start>>
               /\ Out("end_slice", 0, <<"err", "missing_slice">>)
          ELSE /\ stk[n].kind = "slice"
               /\ pos <= stk[n].end
               /\ pos' = stk[n].end
               /\ start' = stk[n].save[2]
               /\ stk' = SubSeq(stk, 1, n - 1)
               /\ UNCHANGED failed
               /\ Out("end_slice", 0, <<"ok", 0>>)

Open(op, kind) ==
    /\ Live
    /\ Len(stk) < MaxDepth
    /\ stk' = Append(stk, Frame(kind, 0))
    /\ UNCHANGED <<pos, start, failed>>
    /\ Out(op, 0, <<"ok", 0>>)

(* Return to the checkpoint of the innermost context of the given kinds,   *)
(* discarding everything opened since.                                     *)
BackTo(op, arg, kinds, reopen, errname) ==
    LET n == TopIndex(stk, Len(stk), kinds)
    IN IF n = 0
       THEN /\ failed' = TRUE
            /\ stk' = << >>
            /\ UNCHANGED <<pos, start>>
            /\ Out(op, arg, <<"err", errname>>)
       ELSE /\ pos' = stk[n].save[1]
            /\ start' = stk[n].save[2]
            /\ stk' = IF reopen
                      THEN Append(SubSeq(stk, 1, n - 1),
                                  [kind |-> "alt", end |-> 0, save |-> stk[n].save])
                      ELSE SubSeq(stk, 1, n - 1)
            /\ failed' = FALSE
            /\ Out(op, arg, <<"ok", 0>>)

ClosePeek    == Live /\ BackTo("close_peek_context", 0, {"peek", "seek"}, FALSE, "no_restore")
\* the two operations below are how a failed parse is resumed
ClosePeekNot == /\ \E i \in 1..Len(stk) : stk[i].kind \in {"alt", "peeknot"}
                /\ BackTo("close_peek_not_context", 0, {"alt", "peeknot"}, FALSE, "no_recovery")
NextAlt(last) == /\ \E i \in 1..Len(stk) : stk[i].kind \in {"alt", "peeknot"}
                 /\ BackTo("next_alt", IF last THEN 1 ELSE 0, {"alt", "peeknot"}, ~last, "no_recovery")
NoRecovery == /\ Live
              /\ ~\E i \in 1..Len(stk) : stk[i].kind \in {"alt", "peeknot"}
              /\ BackTo("next_alt", 1, {"alt", "peeknot"}, FALSE, "no_recovery")

(* An alternative has been decoded: its branch point is dropped, the       *)
(* position kept.  Specified only when nothing was left open inside.       *)
EndAlt == /\ Live
          /\ Len(stk) > 0 /\ stk[Len(stk)].kind = "alt"
          /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
          /\ UNCHANGED <<pos, start, failed>>
          /\ Out("end_alt", 0, <<"ok", 0>>)

(* Random access by absolute byte offset.  Going forward is an advance in  *)
(* the current window; going backward may leave it at its start only.      *)
Seek(d) ==
    /\ Live /\ ~InBits
    /\ Len(stk) < MaxDepth
    /\ LET rel == 8 * (d - Base)
       IN IF d < Base
          THEN /\ failed' = TRUE
               /\ UNCHANGED <<pos, start, stk>>
               /\ Out("advance_or_seek", d, <<"err", "negative">>)
          ELSE IF rel >= pos
          THEN IF rel <= Limit
               THEN /\ stk' = Append(stk, Frame("peek", 0))
                    /\ pos' = rel
                    /\ UNCHANGED <<start, failed>>
                    /\ Out("advance_or_seek", d, <<"ok", 1>>)
               ELSE /\ failed' = TRUE
                    /\ UNCHANGED <<pos, start, stk>>
                    /\ Out("advance_or_seek", d, <<"err", "overrun">>)
          ELSE /\ stk' = Append(stk, Frame("seek", 0))
               /\ pos' = rel
               /\ UNCHANGED <<start, failed>>
               /\ Out("advance_or_seek", d, <<"ok", 0>>)

Finish ==
    /\ Live
    /\ Same
    /\ LET rem == (Limit - pos) \div Unit
       IN Out("finish", 0, IF rem = 0 THEN <<"ok", 0>> ELSE <<"err", "incomplete", rem>>)

(* A view captures what is left of the current window. *)
TakeView ==
    /\ Live /\ ~InBits
    /\ Same
    /\ Out("view", 0, <<"ok", (Limit - pos) \div 8>>)

PosU64 ==
    /\ Live /\ ~InBits
    /\ Same
    /\ Out("get_offset_u64", 0, <<"ok", Base + pos \div 8>>)

Next == \/ ReadByte
        \/ \E n \in Amounts : Advance(n)
        \/ SkipRemainder
        \/ \E n \in Aligns : Align(n)
        \/ EnterBits
        \/ EscapeBits
        \/ \E n \in SliceSizes : StartSlice(n)
        \/ EndSlice
        \/ Open("open_peek_context", "peek")
        \/ Open("open_peek_not_context", "peeknot")
        \/ Open("start_alt", "alt")
        \/ ClosePeek
        \/ ClosePeekNot
        \/ \E b \in BOOLEAN : NextAlt(b)
        \/ EndAlt
        \/ NoRecovery
        \/ \E d \in 0..(Base + Len(Buf) + 1) : Seek(d)
        \/ Finish
        \/ TakeView
        \/ PosU64

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Properties of the model *)
TypeOK == /\ pos \in 0..Len8
          /\ start \in -1..Len(Buf)
          /\ failed \in BOOLEAN
          /\ \A i \in 1..Len(stk) : stk[i].kind \in {"slice", "peek", "peeknot", "alt", "seek"}

(* No read position ever leaves the innermost window. *)
Contained == pos <= Limit

(* A slice opened inside another one never extends beyond it.              *)
SlicesNest ==
    \A i \in 1..Len(stk) :
        stk[i].kind = "slice" =>
            /\ stk[i].end <= LimitOf(SubSeq(stk, 1, i - 1), i - 1)
            /\ stk[i].end >= stk[i].save[1]

(* Every checkpoint was itself a position inside the window in force when  *)
(* it was taken, so falling back to it is always legal.                    *)
CheckpointsLegal ==
    \A i \in 1..Len(stk) :
        /\ stk[i].save[1] <= LimitOf(SubSeq(stk, 1, i - 1), i - 1)
        /\ stk[i].save[2] = -1 => stk[i].save[1] % 8 = 0

ModeOK == start = -1 => pos % 8 = 0

(* Every step either keeps the open contexts, pushes one, or falls back    *)
(* exactly onto a checkpoint (action property).                            *)
FallBackExact ==
    [][Len(stk') < Len(stk) =>
        \/ failed'
        \/ \E i \in 1..Len(stk) :
             /\ SubSeq(stk, 1, i - 1) = SubSeq(stk', 1, i - 1)
             /\ \/ <<pos', start'>> = stk[i].save
                \/ stk[i].kind = "alt" /\ <<pos', start'>> = Here
                \/ stk[i].kind = "slice" /\ pos' = stk[i].end /\ start' = stk[i].save[2]]_vars
=============================================================================
