------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Allocation of identifiers for the types and functions of generated      *)
(* code.                                                                   *)
(*                                                                         *)
(* State: the partial function `given` from types to identifiers.  A type  *)
(* met for the first time gets an identifier no other type has; a type met *)
(* again keeps its own.  The trace file holds histories of requests made   *)
(* to the real allocator (h: which types, in which order, at which         *)
(* location; first: the identifier each request returned; last: the        *)
(* identifier that replaces it in the end), and emitted programs (types,   *)
(* fns: the identifiers defined; uses: those mentioned; again: the same    *)
(* lists when the program is emitted a second time).                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS File, Shards
VARIABLE i

Recs == ndJsonDeserialize(File)
Range(s) == {s[k] : k \in 1 .. Len(s)}

------------------------------------------------------------------------
(* The allocator. *)
Step(given, t, name) ==
    IF t \in DOMAIN given THEN given[t] = name
    ELSE \A u \in DOMAIN given : given[u] # name

RECURSIVE Behaves(_, _, _, _)
Behaves(given, ts, names, k) ==
    \/ k > Len(ts)
    \/ /\ Step(given, ts[k], names[k])
       /\ Behaves(IF ts[k] \in DOMAIN given THEN given ELSE given @@ (ts[k] :> names[k]), ts, names, k + 1)

(* Identifiers: a letter or underscore, then letters, digits, underscores; *)
(* or such a word behind "r#".  Reserved words have no other form.         *)
Lower == 97 .. 122
Upper == 65 .. 90
Digit == 48 .. 57
Word(c) == /\ Len(c) > 0
           /\ c[1] \in Lower \cup Upper \cup {95}
           /\ \A k \in 2 .. Len(c) : c[k] \in Lower \cup Upper \cup Digit \cup {95}
Reserved == {"as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn",
             "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self",
             "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "abstract", "become",
             "box", "do", "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield", "_"}
Identifier(n) ==  \* n = <<text, codes>>
    LET c == n[2]
    IN IF Len(c) > 2 /\ c[1] = 114 /\ c[2] = 35 THEN Word(SubSeq(c, 3, Len(c)))
       ELSE Word(c) /\ n[1] \notin Reserved

Distinct(s) == Cardinality(Range(s)) = Len(s)

------------------------------------------------------------------------
GoodHistory(r) ==
    LET none == [t \in {} |-> ""]
        ts == [k \in 1 .. Len(r.h) |-> r.h[k][1]]
    IN /\ Behaves(none, ts, [k \in 1 .. Len(ts) |-> r.first[k][1]], 1)
       /\ Behaves(none, ts, [k \in 1 .. Len(ts) |-> r.last[k][1]], 1)
       /\ \A k \in 1 .. Len(ts) : Identifier(r.last[k])

GoodProgram(r) ==
    /\ Distinct(r.types)
    /\ Distinct(r.fns)
    /\ \A n \in Range(r.types) \cup Range(r.fns) : Identifier(n)
    /\ {n[1] : n \in Range(r.uses)} \subseteq {n[1] : n \in Range(r.types) \cup Range(r.fns)}
    /\ r.again = << r.types, r.fns, r.uses >>

Good(r) == IF r.kind = "history" THEN GoodHistory(r) ELSE GoodProgram(r)

Check(n) == IF Good(Recs[n]) THEN TRUE ELSE PrintT("BAD " \o ToJson([n |-> n]))
Init == i \in {k \in 1 .. Shards : k <= Len(Recs)}
Next == /\ Check(i) = TRUE
        /\ i + Shards <= Len(Recs)
        /\ i' = i + Shards
Spec == Init /\ [][Next]_i
=============================================================================
