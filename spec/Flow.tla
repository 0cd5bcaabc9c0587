-------------------------------- MODULE Flow --------------------------------
(* Plain and quoted scalars, put together from segments, and what they mean *)
(* by the rules of YAML:                                                    *)
(*   - an escape (in a single quoted scalar, '') stands for its character   *)
(*   - a line break, with the blanks around it, folds to a space, and n > 1 *)
(*     of them to n - 1 newlines                                            *)
(*   - an escaped line break folds to nothing, and what is before it is     *)
(*     kept (as are further line breaks after it)                           *)
(*   - whatever is around a plain scalar is not a part of it                *)
(*                                                                          *)
(* A segment: t is "w" (text s, which means v), "b" (blanks s), "n" (v line *)
(* breaks, and then blanks), "e" (an escaped line break).                   *)
EXTENDS Cases

CONSTANTS
    Style,      \* "plain", "single", "double"
    Segs,
    MaxLen,
    Ctx         \* where it is: a sequence of [pre, post, shape]

VARIABLES w, c

Init == w = << >> /\ c \in DOMAIN Ctx
Next == Len(w) < MaxLen /\ \E k \in DOMAIN Segs : w' = Append(w, k) /\ c' = c
Spec == Init /\ [][Next]_<<w, c>>

S(i) == Segs[w[i]]
Quote == CASE Style = "single" -> <<39>> [] Style = "double" -> <<34>> [] OTHER -> << >>
Doc == Ctx[c].pre \o Quote \o Cat([i \in DOMAIN w |-> S(i).s]) \o Quote \o Ctx[c].post

(* What separates two words: x.ws are blanks, x.n line breaks, x.esc there  *)
(* was an escaped one                                                       *)
Sep(x) == IF x.esc THEN Rep(LF, x.n) ELSE IF x.n = 0 THEN x.ws ELSE Fold(x.n)
None0 == [ws |-> << >>, n |-> 0, esc |-> FALSE]

RECURSIVE Value(_, _, _)
Value(i, v, x) ==
    IF i > Len(w) THEN (IF Style = "plain" THEN v ELSE v \o Sep(x))
    ELSE CASE S(i).t = "w" -> Value(i + 1, IF Style = "plain" /\ v = << >> THEN S(i).v ELSE v \o Sep(x) \o S(i).v, None0)
           [] S(i).t = "b" -> Value(i + 1, v, IF x.n = 0 /\ ~x.esc THEN [x EXCEPT !.ws = @ \o S(i).s] ELSE x)
           [] S(i).t = "n" -> Value(i + 1, v, [x EXCEPT !.n = @ + S(i).v])
           [] S(i).t = "e" -> Value(i + 1, v \o Sep(x), [None0 EXCEPT !.esc = TRUE])

Has(t) == \E i \in DOMAIN w : S(i).t = t
OneLine == ~Has("n") /\ ~Has("e")

This(kind) == Scalar(NONE, NONE, kind, Style, Value(1, << >>, None0))
(* a plain scalar has to have something in it, and a key is on one line     *)
Sane == /\ Style = "plain" => Has("w")
        /\ Ctx[c].shape \in {"key", "pair", "ekey", "epair"} => OneLine

Check == Sane => Means(Doc, Bare1(InShape(Ctx[c].shape, This)))
=============================================================================
