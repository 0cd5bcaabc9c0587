------------------------------ MODULE Scalars ------------------------------
(* How scalars, tags, anchors and directives are recognized: where each    *)
(* ends, what it means, and how far ahead one has to look to know.         *)
(*                                                                         *)
(* Every operator returns Ext (need more input), Err(code), or a record    *)
(* with t = "ok" and p, the position after it.  Scalars also have          *)
(*    data  the content, a sequence of code points                         *)
(*    own   whether the content had to be rewritten (it is otherwise a     *)
(*          slice of the input)                                            *)
(*    bnd   (deferred scalars) the end of the slice which is kept          *)
EXTENDS Chars

---------------------------------------------------------------------------
(* PLAIN SCALARS                                                           *)

(* ': ' ends a plain scalar anywhere, , [ ] { } in a flow collection *)
PlainStop(e, blk, i) ==
    \/ At(e, i) = 58 /\ (IsWSZ(At(e, i + 1)) \/ (~blk /\ IsFlowInd(At(e, i + 1))))
    \/ ~blk /\ IsFlowInd(At(e, i))

(* To the next whitespace, or what ends the scalar (stop) *)
PlainWord(e, blk, p) ==
    LET j == First(e, p.i, LAMBDA k : IsWS(At(e, k)) \/ PlainStop(e, blk, k))
        ws == IsWSZ(At(e, j))
    IN
    IF e.x /\ (j > e.n \/ (j = e.n /\ ~ws)) THEN Ext
    ELSE [t |-> "ok", p |-> AdvIn(e, p, j), stop |-> ~ws]

(* Whitespace, counting its line breaks *)
Gap(e, p) ==
    LET j == First(e, p.i, LAMBDA k : ~IsWS(At(e, k))) IN
    IF Short(e, j, 1) THEN Ext
    ELSE [t |-> "ok", p |-> AdvTo(e, p, j), n |-> Cardinality(BreakEnds(e, p.i, j))]

(* a: p      the position                                                  *)
(*    q      the end of the last word                                      *)
(*    data   the content up to q                                           *)
(*    sep    what separates q from another word                            *)
(*    brk    what separates them is a line break, folded                   *)
(*    own, out (the next line is not indented enough)                      *)
RECURSIVE PlainLoop(_, _, _, _, _)
PlainLoop(e, blk, indent, lz, a) ==
    LET i == a.p.i IN
    IF Short(e, i, 4) THEN Ext
    ELSE IF \/ At(e, i) = EOF
            \/ a.out
            \/ DocInd(e, a.p)
            \/ At(e, i) = 35
            \/ PlainStop(e, blk, i)
         THEN [t |-> "ok", p |-> a.q, data |-> a.data, own |-> a.own, bnd |-> i - 1]
    ELSE LET w == PlainWord(e, blk, a.p) IN
         IF w.t # "ok" THEN w
         ELSE LET d == a.data \o a.sep \o Slice(e.s, i, w.p.i - 1) IN
              IF w.stop /\ lz
              THEN [t |-> "ok", p |-> w.p, data |-> d, own |-> a.own \/ a.brk,
                    bnd |-> IF IsWS(At(e, w.p.i + 1)) THEN w.p.i + 1 ELSE w.p.i]
              ELSE LET g == Gap(e, w.p) IN
                   IF g.t # "ok" THEN g
                   ELSE PlainLoop(e, blk, indent, lz,
                            [p |-> g.p, q |-> w.p, data |-> d,
                             sep |-> IF g.n = 0 THEN Slice(e.s, w.p.i, g.p.i - 1) ELSE Fold(g.n),
                             own |-> a.own \/ a.brk,
                             brk |-> g.n > 0,
                             out |-> blk /\ g.p.c < indent])

PlainScalar(e, p, blk, indent, lz) ==
    IF ~lz /\ Short(e, p.i, 2) THEN Ext
    ELSE IF ~lz /\ ~blk /\ At(e, p.i) \in {58, 63, 45} /\ IsFlowInd(At(e, p.i + 1))
         THEN Err("InvalidPlainScalar")
    ELSE PlainLoop(e, blk, indent, lz,
             [p |-> p, q |-> p, data |-> << >>, sep |-> << >>, own |-> FALSE, brk |-> FALSE, out |-> FALSE])

---------------------------------------------------------------------------
(* QUOTED SCALARS                                                          *)

RECURSIVE HexAt(_, _, _, _)
(* The value of the k hex digits at i; 1114112 if it is too large *)
HexAt(e, i, k, v) ==
    IF k = 0 THEN [t |-> "ok", v |-> v]
    ELSE LET c == At(e, i) IN
         IF c = EOF THEN Err("UnexpectedEOF")
         ELSE IF ~IsHex(c) THEN Err("UnknownEscape")
         ELSE HexAt(e, i + 1, k - 1, IF v > 1114111 THEN v ELSE v * 16 + HexVal(c))

IsScalarValue(v) == v <= 1114111 /\ ~(v >= 55296 /\ v <= 57343)

(* What a backslash may be followed by, and what it then means *)
SimpleEscape == << <<48, 0>>, <<97, 7>>, <<98, 8>>, <<116, 9>>, <<9, 9>>, <<110, 10>>,
                   <<118, 11>>, <<102, 12>>, <<114, 13>>, <<101, 27>>, <<32, 32>>, <<34, 34>>,
                   <<47, 47>>, <<92, 92>>, <<78, 133>>, <<95, 160>>, <<76, 8232>>, <<80, 8233>> >>
EscapeChars == {SimpleEscape[k][1] : k \in DOMAIN SimpleEscape}
EscapeValue(c) == SimpleEscape[CHOOSE k \in DOMAIN SimpleEscape : SimpleEscape[k][1] = c][2]
EscapeDigits(c) == IF c = 120 THEN 2 ELSE IF c = 117 THEN 4 ELSE IF c = 85 THEN 8 ELSE 0

(* The escape whose backslash is at i; n is its length *)
Escape(e, i) ==
    IF Short(e, i + 1, 1) THEN Ext
    ELSE LET c == At(e, i + 1) IN
         IF c = EOF THEN Err("UnexpectedEOF")
         ELSE IF c \in EscapeChars THEN [t |-> "ok", n |-> 2, v |-> EscapeValue(c)]
         ELSE IF EscapeDigits(c) = 0 THEN Err("UnknownEscape")
         ELSE LET k == EscapeDigits(c) IN
              IF Short(e, i + 2, k) THEN Ext
              ELSE LET h == HexAt(e, i + 2, k, 0) IN
                   IF h.t # "ok" THEN h
                   ELSE IF ~IsScalarValue(h.v) THEN Err("UnknownEscape")
                   ELSE [t |-> "ok", n |-> 2 + k, v |-> h.v]

(* To the next whitespace, or the closing quote (done) *)
RECURSIVE QuotedWord(_, _, _, _, _)
QuotedWord(e, single, p0, data0, own) ==
    LET quote == IF single THEN 39 ELSE 34
        j == First(e, p0.i, LAMBDA k : IsWS(At(e, k)) \/ At(e, k) = quote \/ (~single /\ At(e, k) = 92))
        p == AdvIn(e, p0, j)
        data == data0 \o Slice(e.s, p0.i, j - 1)
        c == At(e, j)
        d == At(e, j + 1)
    IN
    IF e.x /\ (j > e.n \/ (j = e.n /\ ~IsWS(c))) THEN Ext
    ELSE IF IsWSZ(c) THEN [t |-> "ok", p |-> p, data |-> data, own |-> own, done |-> FALSE, esc |-> FALSE]
    ELSE IF single /\ d = 39
         THEN QuotedWord(e, single, AdvN(p, 2), Append(data, 39), TRUE)
    ELSE IF c = quote
         THEN [t |-> "ok", p |-> p, data |-> data, own |-> own, done |-> TRUE, esc |-> FALSE]
    ELSE IF IsBreak(d)
         THEN [t |-> "ok", p |-> AdvN(p, 1), data |-> data, own |-> TRUE, done |-> FALSE, esc |-> TRUE]
    ELSE LET x == Escape(e, j) IN
         IF x.t # "ok" THEN x
         ELSE QuotedWord(e, single, AdvN(p, x.n), Append(data, x.v), TRUE)

RECURSIVE QuotedLoop(_, _, _, _, _)
QuotedLoop(e, single, p, data, own) ==
    IF Short(e, p.i, 4) THEN Ext
    ELSE IF DocInd(e, p) THEN Err("InvalidFlowScalar")
    ELSE IF At(e, p.i) = EOF THEN Err("UnexpectedEOF")
    ELSE LET w == QuotedWord(e, single, p, data, own) IN
         IF w.t # "ok" THEN w
         ELSE IF w.done THEN [t |-> "ok", p |-> AdvN(w.p, 1), data |-> w.data, own |-> w.own, bnd |-> w.p.i]
         ELSE LET g == Gap(e, w.p) IN
              IF g.t # "ok" THEN g
              ELSE QuotedLoop(e, single, g.p,
                      w.data \o (IF g.n = 0 THEN Slice(e.s, w.p.i, g.p.i - 1)
                                 ELSE IF w.esc THEN Rep(LF, g.n - 1)
                                 ELSE Fold(g.n)),
                      w.own \/ g.n > 0)

(* Only find the closing quote *)
RECURSIVE QuotedEnd(_, _, _)
QuotedEnd(e, single, p0) ==
    LET quote == IF single THEN 39 ELSE 34
        j == First(e, p0.i, LAMBDA k : At(e, k) = quote \/ (~single /\ At(e, k) = 92))
        p == AdvTo(e, p0, j)
        d == At(e, j + 1)
    IN
    IF e.x /\ j >= e.n THEN Ext
    ELSE IF At(e, j) = EOF THEN Err("UnexpectedEOF")
    ELSE IF single /\ d = 39 THEN QuotedEnd(e, single, AdvN(p, 2))
    ELSE IF At(e, j) = 92 THEN QuotedEnd(e, single, AdvN(p, IF d = 34 \/ d = 92 THEN 2 ELSE 1))
    ELSE [t |-> "ok", p |-> AdvN(p, 1), data |-> << >>, own |-> FALSE, bnd |-> j]

(* p is relative to the scalar: its line starts at the quote *)
QuotedScalar(e, p, single, lz) ==
    IF Short(e, p.i, 1) THEN Ext
    ELSE IF lz THEN QuotedEnd(e, single, AdvN(p, 1))
    ELSE QuotedLoop(e, single, AdvN(p, 1), << >>, FALSE)

---------------------------------------------------------------------------
(* BLOCK SCALARS                                                           *)

(* The headers: chomp ("clip", "keep", "strip") and indent (0: detect), in *)
(* either order, each at most once.                                        *)
BlockHeader(e, i) ==
    LET a == At(e, i)
        b == At(e, i + 1)
        IsChomp(c) == c = 43 \/ c = 45
        Chomp(c) == IF c = 43 THEN "keep" ELSE "strip"
    IN
    IF IsDigit(a) /\ IsChomp(b) THEN [n |-> 2, chomp |-> Chomp(b), ind |-> a - 48]
    ELSE IF IsChomp(a) /\ IsDigit(b) THEN [n |-> 2, chomp |-> Chomp(a), ind |-> b - 48]
    ELSE IF IsDigit(a) THEN [n |-> 1, chomp |-> "clip", ind |-> a - 48]
    ELSE IF IsChomp(a) THEN [n |-> 1, chomp |-> Chomp(a), ind |-> 0]
    ELSE [n |-> 0, chomp |-> "clip", ind |-> 0]

(* The indentation of a line (and empty lines before it: those with no more *)
(* than their indentation)                                                  *)
RECURSIVE BlockIndent(_, _, _, _)
BlockIndent(e, p, indent, n) ==
    IF p.c >= indent THEN [t |-> "ok", p |-> p, n |-> n]
    ELSE LET lim == p.i + (indent - p.c)
             j == First(e, p.i, LAMBDA k : k = lim \/ At(e, k) # SP)
             q == AdvIn(e, p, j)
             c == At(e, j)
         IN
         IF Short(e, j, 1) THEN Ext
         ELSE IF IsBreak(c) THEN BlockIndent(e, AdvL(e, q), indent, n + 1)
         ELSE IF j # lim /\ c = TAB THEN Err("InvalidTab")
         ELSE [t |-> "ok", p |-> q, n |-> n]

(* The indentation of the first non empty line *)
BlockBlanks(e, p) ==
    LET j == First(e, p.i, LAMBDA k : At(e, k) # SP) IN
    IF Short(e, j, 1) THEN Ext
    ELSE IF At(e, j) = TAB THEN Err("InvalidTab")
    ELSE Ok(AdvIn(e, p, j))

RECURSIVE BlockDetect(_, _, _, _)
BlockDetect(e, p, ind, n) ==
    LET b == BlockBlanks(e, p) IN
    IF b.t # "ok" THEN b
    ELSE LET m == IF b.p.c > ind THEN b.p.c ELSE ind IN
         IF IsBreak(At(e, b.p.i)) THEN BlockDetect(e, AdvL(e, b.p), m, n + 1)
         ELSE [t |-> "ok", p |-> b.p, n |-> n, ind |-> m]

(* a: p, n (line breaks since the last content), data, own, blank (the     *)
(* last line started with a blank), any (there was content), nl (the first *)
(* content line ended with LF)                                             *)
RECURSIVE BlockLoop(_, _, _, _)
BlockLoop(e, indent, fold, a) ==
    IF a.p.c # indent \/ At(e, a.p.i) = EOF THEN [t |-> "ok", a |-> a]
    ELSE LET blank == IsBlank(At(e, a.p.i))
             sep == IF fold /\ ~blank /\ ~a.blank /\ a.n > 0 THEN Fold(a.n) ELSE Rep(LF, a.n)
             w == EatLine(e, a.p)
         IN
         IF w.t # "ok" THEN w
         ELSE LET brk == IsBreak(At(e, w.p.i))
                  p2 == IF brk THEN AdvL(e, w.p) ELSE w.p
                  g == BlockIndent(e, p2, indent, IF brk THEN 1 ELSE 0)
              IN
              IF g.t # "ok" THEN g
              ELSE BlockLoop(e, indent, fold,
                      [p |-> g.p, n |-> g.n,
                       data |-> a.data \o sep \o Slice(e.s, a.p.i, w.p.i - 1),
                       own |-> a.own \/ a.n > 0,
                       blank |-> blank, any |-> TRUE, nl |-> At(e, w.p.i) = LF])

BlockChomp(chomp, a) ==
    LET one == IF a.n > 0 THEN <<LF>> ELSE << >> IN
    IF ~a.any
    THEN [data |-> IF chomp = "keep" THEN a.data ELSE << >>, own |-> a.own]
    ELSE IF chomp = "strip" THEN [data |-> a.data, own |-> a.own]
    ELSE IF chomp = "clip"
         THEN [data |-> a.data \o one, own |-> a.own \/ (a.n > 0 /\ ~a.nl)]
    ELSE [data |-> a.data \o Rep(LF, a.n), own |-> a.own \/ (a.n > 0 /\ ~a.nl) \/ a.n > 1]

BlockScalar(e, p, base, fold) ==
    LET i == p.i + 1 IN
    IF Short(e, p.i, 1) \/ Short(e, i, 2) THEN Ext
    ELSE LET h == BlockHeader(e, i)
             b == EatBlanks(e, AdvN(p, 1 + h.n))
         IN
         IF b.t # "ok" THEN b
         ELSE LET c == IF At(e, b.p.i) = 35 THEN EatLine(e, b.p) ELSE b IN
              IF c.t # "ok" THEN c
              ELSE IF ~IsWSZ(At(e, c.p.i)) THEN Err("InvalidBlockScalar")
              ELSE LET d == IF h.ind # 0
                            THEN BlockIndent(e, AdvL(e, c.p), base + h.ind, 0)
                            ELSE BlockDetect(e, AdvL(e, c.p), 0, 0)
                   IN
                   IF d.t # "ok" THEN d
                   ELSE LET indent == IF h.ind # 0 THEN base + h.ind
                                      ELSE IF d.ind < base + 1 THEN base + 1 ELSE d.ind
                            l == BlockLoop(e, indent, fold,
                                    [p |-> d.p, n |-> 0, data |-> Rep(LF, d.n), own |-> d.n > 0,
                                     blank |-> FALSE, any |-> FALSE, nl |-> FALSE])
                        IN
                        IF l.t # "ok" THEN l
                        ELSE LET r == BlockChomp(h.chomp, l.a) IN
                             [t |-> "ok", p |-> l.a.p, data |-> r.data, own |-> r.own, bnd |-> l.a.p.i - 1]

---------------------------------------------------------------------------
(* ANCHORS AND ALIASES                                                     *)

Anchor(e, p) ==
    LET j == AlnumEnd(e, p.i + 1)  c == At(e, j) IN
    IF j = -1 THEN Ext
    ELSE IF j = p.i + 1 THEN Err("InvalidAnchorName")
    ELSE IF IsWSZ(c) \/ c \in {63, 44, 93, 125, 37, 64, 96}
         THEN [t |-> "ok", p |-> AdvN(p, j - p.i), name |-> Slice(e.s, p.i + 1, j - 1)]
    ELSE Err("InvalidAnchorName")

---------------------------------------------------------------------------
(* TAGS                                                                    *)

UriChar(c, verb) ==
    \/ (c >= 38 /\ c <= 43)       \* & ' ( ) * +
    \/ (c >= 45 /\ c <= 57)       \* - . / 0-9
    \/ IsAlpha(c)
    \/ c \in {33, 36, 58, 59, 61, 63, 64, 95, 126}   \* ! $ : ; = ? @ _ ~
    \/ (verb /\ c \in {44, 91, 93})                  \* , [ ]

Octet(e, i) ==
    LET a == At(e, i)  b == At(e, i + 1)  c == At(e, i + 2)
        Wz(x) == IF x = EOF THEN 0 ELSE W(x)
    IN
    IF Short(e, i, 3) THEN Ext
    ELSE IF Wz(a) + Wz(b) + Wz(c) < 3 THEN Err("UnexpectedEOF")
    ELSE IF a = 37 /\ IsHex(b) /\ IsHex(c) THEN [t |-> "ok", v |-> HexVal(b) * 16 + HexVal(c)]
    ELSE Err("UnknownEscape")

(* The k continuation octets at i of a percent encoded character *)
RECURSIVE Octets(_, _, _, _)
Octets(e, i, k, v) ==
    IF k = 0 THEN [t |-> "ok", i |-> i, v |-> v]
    ELSE LET o == Octet(e, i) IN
         IF o.t # "ok" THEN o
         ELSE IF o.v < 128 \/ o.v > 191 THEN Err("UnknownEscape")
         ELSE Octets(e, i + 3, k - 1, v * 64 + (o.v - 128))

(* One percent encoded character at i. A character which has a shorter     *)
(* encoding, or is not a character at all, is bad.                         *)
UriEscape(e, i) ==
    LET o == Octet(e, i) IN
    IF o.t # "ok" THEN o
    ELSE LET k == IF o.v < 128 THEN 1 ELSE IF o.v >= 192 /\ o.v < 224 THEN 2
                  ELSE IF o.v >= 224 /\ o.v < 240 THEN 3 ELSE IF o.v >= 240 /\ o.v < 248 THEN 4 ELSE 0
             v0 == IF k = 1 THEN o.v ELSE IF k = 2 THEN o.v - 192 ELSE IF k = 3 THEN o.v - 224 ELSE o.v - 240
         IN
         IF k = 0 THEN Err("UnknownEscape")
         ELSE LET r == Octets(e, i + 3, k - 1, v0) IN
              IF r.t # "ok" THEN r
              ELSE [t |-> "ok", i |-> r.i, v |-> r.v, bad |-> ~IsScalarValue(r.v) \/ W(r.v) # k]

RECURSIVE Uri(_, _, _, _, _, _)
Uri(e, i, verb, data0, own, bad) ==
    LET j == First(e, i, LAMBDA k : ~UriChar(At(e, k), verb))
        data == data0 \o Slice(e.s, i, j - 1)
    IN
    IF Short(e, j, 1) THEN Ext
    ELSE IF At(e, j) = 37
         THEN LET x == UriEscape(e, j) IN
              IF x.t # "ok" THEN x
              ELSE Uri(e, x.i, verb, Append(data, x.v), TRUE, bad \/ x.bad)
    ELSE IF verb /\ At(e, j) = EOF THEN Err("UnexpectedEOF")
    ELSE IF bad THEN Err("UnknownEscape")
    ELSE [t |-> "ok", i |-> j, data |-> data, own |-> own]

(* h: "none", "primary" (a lone !), "named" (!! or !name!) *)
TagHandle(e, i) ==
    IF Short(e, i, 1) THEN Ext
    ELSE IF At(e, i) = EOF THEN Err("UnexpectedEOF")
    ELSE IF At(e, i) # 33 THEN Err("InvalidTagHandle")
    ELSE LET j == AlnumEnd(e, i + 1)  c == At(e, j) IN
         IF j = -1 THEN Ext
         ELSE IF c = 33 THEN [t |-> "ok", h |-> "named", i |-> j + 1]
         ELSE IF j = i + 1 /\ IsWSZ(c) THEN [t |-> "ok", h |-> "primary", i |-> i + 1]
         ELSE [t |-> "ok", h |-> "none", i |-> i]

NodeTag(e, p) ==
    LET Tag(i, h, s, o) == [t |-> "ok", p |-> AdvN(p, i - p.i), handle |-> h, suffix |-> s, own |-> o] IN
    IF Short(e, p.i, 2) THEN Ext
    ELSE IF At(e, p.i + 1) = 60
         THEN LET u == Uri(e, p.i + 2, TRUE, << >>, FALSE, FALSE) IN
              IF u.t # "ok" THEN u
              ELSE IF At(e, u.i) # 62 THEN Err("InvalidTagSuffix")
              ELSE Tag(u.i + 1, << >>, u.data, u.own)
    ELSE LET h == TagHandle(e, p.i) IN
         IF h.t # "ok" THEN h
         ELSE IF h.h = "primary" THEN Tag(h.i, <<33>>, << >>, FALSE)
         ELSE LET k == IF h.h = "named" THEN h.i ELSE p.i + 1
                  u == Uri(e, k, FALSE, << >>, FALSE, FALSE)
              IN IF u.t # "ok" THEN u
                 ELSE Tag(u.i, Slice(e.s, p.i, k - 1), u.data, u.own)

---------------------------------------------------------------------------
(* DIRECTIVES                                                              *)

StartsWith(e, i, w) == \A k \in DOMAIN w : At(e, i + k - 1) = w[k]

RECURSIVE DigitsValue(_, _, _, _)
DigitsValue(e, i, j, v) ==
    IF i = j THEN v
    ELSE DigitsValue(e, i + 1, j, IF v > 255 THEN v ELSE v * 10 + At(e, i) - 48)

Version(e, i) ==
    LET j == DigitEnd(e, i) IN
    IF j = -1 THEN Ext
    ELSE IF j = i \/ DigitsValue(e, i, j, 0) > 255 THEN Err("InvalidVersion")
    ELSE [t |-> "ok", i |-> j, v |-> DigitsValue(e, i, j, 0)]

Directive(e, p) ==
    IF Short(e, p.i + 1, 4) THEN Ext
    ELSE IF StartsWith(e, p.i + 1, <<89, 65, 77, 76>>)
    THEN LET w == EatWs(e, AdvN(p, 5), FALSE) IN
         IF w.t # "ok" THEN w
         ELSE LET a == Version(e, w.p.i) IN
              IF a.t # "ok" THEN a
              ELSE IF At(e, a.i) = EOF THEN Err("UnexpectedEOF")
              ELSE IF At(e, a.i) # 46 THEN Err("InvalidVersion")
              ELSE LET b == Version(e, a.i + 1) IN
                   IF b.t # "ok" THEN b
                   ELSE [t |-> "ok", d |-> "version", p |-> AdvN(w.p, b.i - w.p.i), major |-> a.v, minor |-> b.v]
    ELSE IF StartsWith(e, p.i + 1, <<84, 65, 71>>)
    THEN LET w == EatWs(e, AdvN(p, 4), FALSE) IN
         IF w.t # "ok" THEN w
         ELSE LET h == TagHandle(e, w.p.i) IN
              IF h.t # "ok" THEN h
              ELSE IF h.h = "none"
              THEN Err(IF At(e, AlnumEnd(e, w.p.i + 1)) = EOF THEN "UnexpectedEOF" ELSE "InvalidTagHandle")
              ELSE IF Short(e, h.i, 1) THEN Ext
              ELSE IF At(e, h.i) = EOF THEN Err("UnexpectedEOF")
              ELSE IF ~IsBlank(At(e, h.i)) THEN Err("InvalidTagPrefix")
              ELSE LET v == EatWs(e, AdvN(w.p, h.i - w.p.i), FALSE) IN
                   IF v.t # "ok" THEN v
                   ELSE LET u == Uri(e, v.p.i, FALSE, << >>, FALSE, FALSE) IN
                        IF u.t # "ok" THEN u
                        ELSE IF At(e, u.i) = EOF THEN Err("UnexpectedEOF")
                        ELSE IF ~IsWS(At(e, u.i)) THEN Err("InvalidTagPrefix")
                        ELSE [t |-> "ok", d |-> "tag", p |-> AdvN(v.p, u.i - v.p.i),
                              handle |-> Slice(e.s, w.p.i, h.i - 1), prefix |-> u.data, own |-> u.own]
    ELSE Err("UnknownDirective")
=============================================================================
