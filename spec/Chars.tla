------------------------------- MODULE Chars -------------------------------
(* Characters, the view a scanner has of its input, and its position.      *)
(*                                                                         *)
(* A document is a sequence of Unicode code points. Everything a scanner   *)
(* does depends only on what it can see: the first e.n characters of e.s,  *)
(* and on whether more may still come (e.x).  A look at a character which  *)
(* is not there yet is answered by "ext" (read more, then retry).          *)
(* e.o[i] is how many bytes come before the i-th character.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

EOF == -1

TAB == 9    LF == 10   CR == 13   SP == 32
NEL == 133  LSEP == 8232  PSEP == 8233

(* UTF-8 width *)
W(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

Offsets(s) == FoldLeft(LAMBDA o, c : Append(o, o[Len(o)] + W(c)), <<0>>, s)

(* The first of i..e.n at which P holds; the end, if there is none. (The   *)
(* order of the conjuncts is for TLC, which finds it in one pass.)         *)
First(e, i, P(_)) ==
    CHOOSE j \in i..(e.n + 1) : (j = e.n + 1 \/ P(j)) /\ \A k \in i..(j - 1) : ~P(k)

At(e, i) == IF i <= e.n THEN e.s[i] ELSE EOF
Short(e, i, k) == e.x /\ i + k - 1 > e.n

IsBlank(c)  == c = SP \/ c = TAB
IsBreak(c)  == c = LF \/ c = CR \/ c = NEL \/ c = LSEP \/ c = PSEP
IsWS(c)     == IsBlank(c) \/ IsBreak(c)
IsWSZ(c)    == IsBlank(c) \/ IsBreak(c) \/ c = EOF
IsBreakZ(c) == IsBreak(c) \/ c = EOF
IsDigit(c)  == c >= 48 /\ c <= 57
IsAlpha(c)  == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsAlnum(c)  == IsDigit(c) \/ IsAlpha(c)
IsHex(c)    == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c)   == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
(* , [ ] { } *)
IsFlowInd(c) == c = 44 \/ c = 91 \/ c = 93 \/ c = 123 \/ c = 125

(* A position: index of the next character, bytes read, lines, column (in *)
(* bytes).                                                                 *)
Pos0 == [i |-> 1, r |-> 0, l |-> 0, c |-> 0]

Adv(p, c) == [i |-> p.i + 1, r |-> p.r + W(c), l |-> p.l, c |-> p.c + W(c)]
(* n single byte characters *)
AdvN(p, n) == [i |-> p.i + n, r |-> p.r + n, l |-> p.l, c |-> p.c + n]
(* Over the line break at p; CRLF is one break. Counts a line, and returns *)
(* to column 0, even if there is no break (the end of the stream).         *)
AdvL(e, p) ==
    LET a == At(e, p.i) IN
    IF a = CR /\ At(e, p.i + 1) = LF THEN [i |-> p.i + 2, r |-> p.r + 2, l |-> p.l + 1, c |-> 0]
    ELSE IF IsBreak(a) THEN [i |-> p.i + 1, r |-> p.r + W(a), l |-> p.l + 1, c |-> 0]
    ELSE [i |-> p.i, r |-> p.r, l |-> p.l + 1, c |-> 0]

(* '---' or '...' at the start of a line, followed by whitespace *)
DocInd(e, p) ==
    /\ p.c = 0
    /\ LET a == At(e, p.i) IN
       /\ (a = 45 \/ a = 46)
       /\ At(e, p.i + 1) = a
       /\ At(e, p.i + 2) = a
       /\ IsWSZ(At(e, p.i + 3))

Ext == [t |-> "ext"]
Err(x) == [t |-> "err", e |-> x]

Rep(c, n) == [k \in 1..n |-> c]
Slice(s, a, b) == SubSeq(s, a, b)

(* The characters a sequence of line breaks and blanks between two words  *)
(* folds to: n breaks.                                                     *)
Fold(n) == IF n = 1 THEN <<SP>> ELSE Rep(LF, n - 1)

(* The line breaks between two characters, each by where it ends *)
BreakEnds(e, i, j) ==
    {k \in i..(j - 1) : IsBreak(At(e, k)) /\ ~(At(e, k) = CR /\ k + 1 < j /\ At(e, k + 1) = LF)}

(* From p to the character j *)
AdvTo(e, p, j) ==
    LET b == BreakEnds(e, p.i, j)
        d == e.o[j] - e.o[p.i]
    IN
    IF b = {} THEN [i |-> j, r |-> p.r + d, l |-> p.l, c |-> p.c + d]
    ELSE LET last == CHOOSE k \in b : \A x \in b : x <= k IN
         [i |-> j, r |-> p.r + d, l |-> p.l + Cardinality(b), c |-> e.o[j] - e.o[last + 1]]
(* where there is no line break in between *)
AdvIn(e, p, j) ==
    LET d == e.o[j] - e.o[p.i] IN [i |-> j, r |-> p.r + d, l |-> p.l, c |-> p.c + d]

Ok(p) == [t |-> "ok", p |-> p]

(* To the next line break or the end *)
EatLine(e, p) ==
    LET j == First(e, p.i, LAMBDA k : IsBreak(At(e, k))) IN
    IF Short(e, j, 1) THEN Ext ELSE Ok(AdvIn(e, p, j))

(* Blanks only *)
EatBlanks(e, p) ==
    LET j == First(e, p.i, LAMBDA k : ~IsBlank(At(e, k))) IN
    IF Short(e, j, 1) THEN Ext ELSE Ok(AdvIn(e, p, j))

(* Whitespace, and (if com) comments *)
RECURSIVE EatWs(_, _, _)
EatWs(e, p, com) ==
    LET j == First(e, p.i, LAMBDA k : ~IsWS(At(e, k))) IN
    IF Short(e, j, 1) THEN Ext
    ELSE IF com /\ At(e, j) = 35
    THEN LET c == EatLine(e, AdvTo(e, p, j)) IN
         IF c.t # "ok" THEN c ELSE EatWs(e, c.p, com)
    ELSE Ok(AdvTo(e, p, j))

(* The first index at or after i which is not an ASCII letter or digit; -1 *)
(* if that isn't known                                                     *)
AlnumEnd(e, i) ==
    LET j == First(e, i, LAMBDA k : ~IsAlnum(At(e, k))) IN IF Short(e, j, 1) THEN -1 ELSE j
DigitEnd(e, i) ==
    LET j == First(e, i, LAMBDA k : ~IsDigit(At(e, k))) IN IF Short(e, j, 1) THEN -1 ELSE j
=============================================================================
