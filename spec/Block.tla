-------------------------------- MODULE Block --------------------------------
(* Block scalars, put together from lines, and what they mean by the rules  *)
(* of YAML. The lines are relative to the indentation of the content:       *)
(*   t = "x"  text s, which does not start with a blank                     *)
(*   t = "m"  text s, which does (more indented, or a tab)                  *)
(*   t = "e"  an empty line: s are spaces, fewer than the indentation       *)
(* brk is the line break of every line (and none, for the last, if open).   *)
EXTENDS Cases

CONSTANTS
    Lines,      \* [t, s]
    MaxLen,
    Heads,      \* [s, fold, chomp, exp]: the header, exp: it states the indentation
    Ctx         \* [pre, ind, post, shape]

VARIABLES w, h, c, brk, open

BrkOf == << <<LF>>, <<CR, LF>>, <<CR>>, <<NEL>> >>

Init == /\ w = << >> /\ h \in DOMAIN Heads /\ c \in DOMAIN Ctx
        /\ brk \in DOMAIN BrkOf /\ open \in BOOLEAN
Next == /\ Len(w) < MaxLen
        /\ \E k \in DOMAIN Lines : w' = Append(w, k)
        /\ UNCHANGED <<h, c, brk, open>>
Spec == Init /\ [][Next]_<<w, h, c, brk, open>>

L(i) == Lines[w[i]]
H == Heads[h]
X == Ctx[c]
B == BrkOf[brk]
n == Len(w)
Full == {i \in DOMAIN w : L(i).t # "e"}
(* is the i-th line ended by a line break? *)
Ended(i) == ~(open /\ i = n)

Text(i) == (IF L(i).t = "e" THEN << >> ELSE SP1(X.ind)) \o L(i).s \o (IF Ended(i) THEN B ELSE << >>)
Doc == X.pre \o H.s \o (IF w = << >> /\ open THEN << >> ELSE B) \o Cat([i \in DOMAIN w |-> Text(i)]) \o X.post

LastL == CHOOSE i \in Full : \A j \in Full : j <= i
FirstL == CHOOSE i \in Full : \A j \in Full : i <= j

(* How the lines i and j, with only empty ones in between, are joined *)
Join(i, j) ==
    IF H.fold /\ L(i).t = "x" /\ L(j).t = "x" THEN Fold(j - i) ELSE Rep(LF, j - i)

RECURSIVE Body(_, _, _)
Body(i, p, v) ==     \* p: the last full line before i
    IF i > LastL THEN v
    ELSE IF i \notin Full THEN Body(i + 1, p, v)
    ELSE Body(i + 1, i, v \o (IF p = 0 THEN Rep(LF, i - 1) ELSE Join(p, i)) \o L(i).s)

Tail2 == LET k == (n - LastL) + (IF LastL = n /\ ~Ended(n) THEN 0 ELSE 1)
             \* an empty line which nothing ends is not a line
             k2 == IF open /\ LastL < n THEN k - 1 ELSE k
         IN CASE H.chomp = "strip" -> << >>
              [] H.chomp = "clip"  -> IF k2 > 0 THEN <<LF>> ELSE << >>
              [] H.chomp = "keep"  -> Rep(LF, k2)

Value ==
    IF Full = {} THEN (IF H.chomp = "keep" THEN Rep(LF, IF open /\ n > 0 THEN n - 1 ELSE n) ELSE << >>)
    ELSE Body(1, 0, << >>) \o Tail2

This(kind) == Scalar(NONE, NONE, kind, IF H.fold THEN "folded" ELSE "literal", Value)
Sane ==
    \* what follows the scalar needs a line of its own
    /\ X.post # << >> => ~open
    \* the indentation is found from the first line with text in it: no blank
    \* may be before that, and no empty line be longer
    /\ ~H.exp => \/ Full = {}
                 \/ L(FirstL).t = "x"
    /\ \A i \in DOMAIN w : L(i).t = "e" => Len(L(i).s) <= X.ind
    /\ ~H.exp /\ Full = {} => \A i \in DOMAIN w : L(i).s = << >>

Check == Sane => Means(Doc, Bare1(InShape(X.shape, This)))
=============================================================================
