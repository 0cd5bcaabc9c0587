------------------------------ MODULE Scanner ------------------------------
(* One step of the scanner: the next token, or tokens.                     *)
(*                                                                         *)
(* The scanner state sc:                                                   *)
(*   ss      "start", "stream", "done"                                     *)
(*   p       the position                                                  *)
(*   ska     may a simple (implicit) key start here?                       *)
(*   key     where one started: poss \in {"none", "no", "yes", "req"}, p   *)
(*   flow    how many flow collections are open                            *)
(*   ind     the indentation, of the innermost entry of inds               *)
(*   inds    the open block collections, outermost first: ind (that of the *)
(*           parent), map, line, zi (a sequence indented like its parent)  *)
(*                                                                         *)
(* and the queue q of tokens: k (kind), m (mark) and their data. A token   *)
(* is queued by its mark: a Key or block collection start which is only    *)
(* discovered at a ':' is queued before the key.                           *)
EXTENDS Scalars

NoKey == [poss |-> "none", p |-> Pos0]

Scanner0 == [ss |-> "start", p |-> Pos0, ska |-> FALSE, key |-> NoKey,
             flow |-> 0, ind |-> 0, inds |-> << >>]

InBlock(sc) == sc.flow = 0
(* -1: nothing is indented *)
Indent(sc) == IF sc.inds = << >> THEN -1 ELSE sc.ind
KeyPossible(sc) == sc.key.poss \in {"yes", "req"}

(* After every token with a mark at or before m *)
RECURSIVE QPos(_, _, _)
QPos(q, m, k) == IF k = 0 \/ q[k].m <= m THEN k ELSE QPos(q, m, k - 1)
Queue(q, tok) ==
    LET k == QPos(q, tok.m, Len(q)) IN
    IF k = Len(q) THEN Append(q, tok)
    ELSE SubSeq(q, 1, k) \o <<tok>> \o SubSeq(q, k + 1, Len(q))

Tok(k, m) == [k |-> k, m |-> m]

(* Results: [t, sc, q] and e if it is an error *)
Done(sc, q) == [t |-> "ok", sc |-> sc, q |-> q]
Fail(sc, q, x) == [t |-> "err", sc |-> sc, q |-> q, e |-> x]
More(sc, q) == [t |-> "ext", sc |-> sc, q |-> q]
(* r is Ext or an Err *)
Pass(sc, q, r) == IF r.t = "ext" THEN More(sc, q) ELSE Fail(sc, q, r.e)

(* Close every block collection indented more than col *)
RECURSIVE Unroll(_, _, _)
Unroll(sc, q, col) ==
    IF InBlock(sc) /\ sc.inds # << >> /\ sc.ind > col
    THEN LET n == Len(sc.inds) IN
         Unroll([sc EXCEPT !.ind = sc.inds[n].ind, !.inds = SubSeq(sc.inds, 1, n - 1)],
                Queue(q, Tok("BE", sc.p.r)), col)
    ELSE [sc |-> sc, q |-> q]

(* Open a block collection, if there isn't one at this indentation *)
Roll(sc, q, p, map) ==
    LET Push(zi) == [sc |-> [sc EXCEPT !.ind = p.c,
                                       !.inds = Append(@, [ind |-> sc.ind, map |-> map, line |-> p.l, zi |-> zi])],
                     q |-> Queue(q, Tok(IF map THEN "BMS" ELSE "BSS", p.r))]
    IN
    IF ~InBlock(sc) THEN [sc |-> sc, q |-> q]
    ELSE IF Indent(sc) < p.c THEN Push(FALSE)
    ELSE IF ~map /\ Indent(sc) = p.c /\ sc.inds[Len(sc.inds)].map THEN Push(TRUE)
    ELSE [sc |-> sc, q |-> q]

DropKey(sc) == [sc EXCEPT !.key = NoKey]
KeyRequired(sc) == sc.key.poss = "req"

(* A simple key may have started at p *)
SaveKey(sc, p) ==
    IF sc.ska
    THEN [sc EXCEPT !.key = [poss |-> IF InBlock(sc) /\ Indent(sc) = p.c THEN "req" ELSE "yes", p |-> p]]
    ELSE sc

---------------------------------------------------------------------------

FetchEnd(sc, q) ==
    LET u == Unroll(sc, q, -1) IN
    IF KeyRequired(u.sc) THEN Fail(u.sc, u.q, "MissingValue")
    ELSE Done([DropKey(u.sc) EXCEPT !.ss = "done"], Queue(u.q, Tok("SE", u.sc.p.r)))

FetchMarker(sc, q, k) ==
    LET u == Unroll(sc, q, -1)
        p == AdvN(sc.p, 3)
    IN
    IF KeyRequired(u.sc) THEN Fail(u.sc, u.q, "MissingValue")
    ELSE Done([DropKey(u.sc) EXCEPT !.ska = FALSE, !.p = p], Queue(u.q, Tok(k, p.r)))

FetchDirective(e, sc, q) ==
    LET d == Directive(e, sc.p) IN
    IF d.t # "ok" THEN Pass(sc, q, d)
    ELSE LET u == Unroll(sc, q, -1) IN
         IF KeyRequired(u.sc) THEN Fail(u.sc, u.q, "MissingValue")
         ELSE Done([DropKey(u.sc) EXCEPT !.ska = FALSE, !.p = d.p],
                   Queue(u.q, IF d.d = "version"
                              THEN [k |-> "VD", m |-> d.p.r, major |-> d.major, minor |-> d.minor]
                              ELSE [k |-> "TD", m |-> d.p.r, handle |-> d.handle, prefix |-> d.prefix, own |-> d.own]))

FetchFlowStart(sc, q, k) ==
    LET p == AdvN(sc.p, 1)
        s == [sc EXCEPT !.flow = @ + 1, !.p = p]
        q2 == Queue(q, Tok(k, p.r))
    IN
    IF sc.ska /\ KeyRequired(sc) THEN Fail(s, q2, "MissingValue")
    ELSE Done([SaveKey(s, p) EXCEPT !.ska = TRUE], q2)

FetchFlowEnd(sc, q, k) ==
    LET p == AdvN(sc.p, 1) IN
    IF KeyRequired(sc) THEN Fail(sc, q, "MissingValue")
    ELSE IF sc.flow = 0 THEN Fail(sc, q, "IntOverflow")
    ELSE Done([DropKey(sc) EXCEPT !.flow = @ - 1, !.ska = FALSE, !.p = p], Queue(q, Tok(k, p.r)))

FetchFlowEntry(sc, q) ==
    LET p == AdvN(sc.p, 1) IN
    IF KeyRequired(sc) THEN Fail(sc, q, "MissingValue")
    ELSE Done([DropKey(sc) EXCEPT !.ska = TRUE, !.p = p], Queue(q, Tok("FE", p.r)))

FetchBlockEntry(sc, q) ==
    IF ~(InBlock(sc) /\ sc.ska) THEN Fail(sc, q, "InvalidBlockEntry")
    ELSE LET u == Roll(sc, q, sc.p, FALSE)
             n == Len(u.sc.inds)
             s == IF n > 0 /\ u.sc.inds[n].ind = sc.p.c /\ u.sc.inds[n].line < sc.p.l
                  THEN [u.sc EXCEPT !.inds[n].line = sc.p.l] ELSE u.sc
             p == AdvN(sc.p, 1)
         IN
         IF KeyRequired(s) THEN Fail(s, u.q, "MissingValue")
         ELSE Done([DropKey(s) EXCEPT !.ska = TRUE, !.p = p], Queue(u.q, Tok("BEN", p.r)))

FetchKey(sc, q) ==
    IF InBlock(sc) /\ ~sc.ska THEN Fail(sc, q, "InvalidKey")
    ELSE LET u == IF InBlock(sc) THEN Roll(sc, q, sc.p, TRUE) ELSE [sc |-> sc, q |-> q]
             p == AdvN(sc.p, 1)
         IN
         IF KeyRequired(u.sc) THEN Fail(u.sc, u.q, "MissingValue")
         ELSE Done([DropKey(u.sc) EXCEPT !.ska = InBlock(sc), !.p = p], Queue(u.q, Tok("KEY", p.r)))

FetchValue(sc, q) ==
    LET s == DropKey(sc)
        p == AdvN(sc.p, 1)
    IN
    IF KeyPossible(sc)
    THEN LET u == Roll(s, q, sc.key.p, TRUE) IN
         Done([u.sc EXCEPT !.ska = FALSE, !.p = p],
              Queue(Queue(u.q, Tok("KEY", sc.key.p.r)), Tok("VAL", p.r)))
    ELSE IF InBlock(sc) /\ ~sc.ska THEN Fail(s, q, "InvalidValue")
    ELSE LET u == IF InBlock(sc) THEN Roll(s, q, sc.p, TRUE) ELSE [sc |-> s, q |-> q] IN
         Done([u.sc EXCEPT !.ska = InBlock(sc), !.p = p], Queue(u.q, Tok("VAL", p.r)))

(* A token which may start a key: an anchor, alias, tag or scalar *)
FetchNode(sc, q, r, tok) ==
    IF r.t # "ok" THEN Pass(sc, q, r)
    ELSE IF sc.ska /\ KeyRequired(sc) THEN Fail(sc, q, "MissingValue")
    ELSE Done([SaveKey(sc, sc.p) EXCEPT !.ska = FALSE, !.p = r.p], Queue(q, tok))

FetchAnchor(e, sc, q) ==
    LET r == Anchor(e, sc.p) IN
    FetchNode(sc, q, r, IF r.t = "ok"
        THEN [k |-> IF At(e, sc.p.i) = 42 THEN "ALI" ELSE "ANC", m |-> r.p.r, name |-> r.name]
        ELSE << >>)

FetchTag(e, sc, q) ==
    LET r == NodeTag(e, sc.p) IN
    FetchNode(sc, q, r, IF r.t = "ok"
        THEN [k |-> "TAG", m |-> r.p.r, handle |-> r.handle, suffix |-> r.suffix, own |-> r.own]
        ELSE << >>)

(* ev is what a deferred scalar is evaluated to *)
ScalarTok(r, style, lz, ev) ==
    [k |-> "SC", m |-> r.p.r, style |-> style, lz |-> lz,
     v |-> IF lz THEN ev ELSE [t |-> "ok", data |-> r.data, own |-> r.own]]

(* What is kept of the input by a deferred scalar *)
Kept(e, r) == [e EXCEPT !.n = r.bnd, !.x = FALSE]
Evaluated(r) == IF r.t = "ok" THEN [t |-> "ok", data |-> r.data, own |-> r.own] ELSE r

AddPos(p, d) == [i |-> d.i, r |-> p.r + d.r, l |-> p.l + d.l, c |-> IF d.l = 0 THEN p.c + d.c ELSE d.c]

FetchQuoted(e, sc, q, lz) ==
    LET single == At(e, sc.p.i) = 39
        p0 == [Pos0 EXCEPT !.i = sc.p.i]
        r0 == QuotedScalar(e, p0, single, lz)
        r == IF r0.t = "ok" THEN [r0 EXCEPT !.p = AddPos(sc.p, r0.p)] ELSE r0
    IN
    FetchNode(sc, q, r, IF r.t = "ok"
        THEN ScalarTok(r, IF single THEN "single" ELSE "double", lz,
                       Evaluated(QuotedScalar(Kept(e, r), p0, single, FALSE)))
        ELSE << >>)

FetchPlain(e, sc, q, lz) ==
    LET indent == Indent(sc) + 1
        r == PlainScalar(e, sc.p, InBlock(sc), indent, lz)
    IN
    FetchNode(sc, q, r, IF r.t = "ok"
        THEN ScalarTok(r, "plain", lz,
                       Evaluated(PlainScalar(Kept(e, r), sc.p, InBlock(sc), indent, FALSE)))
        ELSE << >>)

FetchBlockScalar(e, sc, q, lz) ==
    LET fold == At(e, sc.p.i) = 62
        base == IF Indent(sc) = -1 THEN 0 ELSE Indent(sc)
        s == [DropKey(sc) EXCEPT !.ska = TRUE]
        r == BlockScalar(e, sc.p, base, fold)
    IN
    IF KeyRequired(sc) THEN Fail(sc, q, "MissingValue")
    ELSE IF r.t # "ok" THEN
        (* a deferred scalar reports what is wrong with it once it is evaluated, *)
        (* but where it ends is needed now, and only depends on what is checked here *)
        Pass(s, q, r)
    ELSE Done([s EXCEPT !.p = r.p],
              Queue(q, ScalarTok(r, IF fold THEN "folded" ELSE "literal", lz,
                                 Evaluated(BlockScalar(Kept(e, r), sc.p, base, fold)))))

---------------------------------------------------------------------------

PlainStart(e, i, blk) ==
    LET c == At(e, i) IN
    /\ ~IsWSZ(c)
    (* % & * ! ' " { [ } ] , | > # @ ` *)
    /\ c \notin {37, 38, 42, 33, 39, 34, 123, 91, 125, 93, 44, 124, 62, 35, 64, 96}
    /\ c \in {58, 63, 45} => blk \/ ~IsFlowInd(At(e, i + 1))

Dispatch(e, sc, q, lz) ==
    LET p == sc.p
        c == At(e, p.i)
        d == At(e, p.i + 1)
        blk == InBlock(sc)
    IN
    IF c = 37 /\ p.c = 0 THEN FetchDirective(e, sc, q)
    ELSE IF DocInd(e, p) THEN FetchMarker(sc, q, IF c = 45 THEN "DS" ELSE "DE")
    ELSE IF c = 123 THEN FetchFlowStart(sc, q, "FMS")
    ELSE IF c = 91 THEN FetchFlowStart(sc, q, "FSS")
    ELSE IF c = 125 THEN FetchFlowEnd(sc, q, "FME")
    ELSE IF c = 93 THEN FetchFlowEnd(sc, q, "FSE")
    ELSE IF c = 44 THEN FetchFlowEntry(sc, q)
    ELSE IF c = 45 /\ IsWSZ(d) THEN FetchBlockEntry(sc, q)
    ELSE IF c = 63 /\ (~blk \/ IsWSZ(d)) THEN FetchKey(sc, q)
    ELSE IF c = 58 /\ (~blk \/ IsWSZ(d)) THEN FetchValue(sc, q)
    ELSE IF c = 38 \/ c = 42 THEN FetchAnchor(e, sc, q)
    ELSE IF c = 33 THEN FetchTag(e, sc, q)
    ELSE IF (c = 124 \/ c = 62) /\ blk THEN FetchBlockScalar(e, sc, q, lz)
    ELSE IF c = 39 \/ c = 34 THEN FetchQuoted(e, sc, q, lz)
    ELSE IF PlainStart(e, p.i, blk) THEN FetchPlain(e, sc, q, lz)
    ELSE Fail(sc, q, "UnknownDelimiter")

(* A simple key is on one line, and at most 1024 bytes *)
KeyLimit == 1024
Stale(sc) == KeyPossible(sc) /\ (sc.key.p.l < sc.p.l \/ sc.key.p.r + KeyLimit < sc.p.r)

ScanOne(e, sc, q, lz) ==
    IF sc.ss = "start"
    THEN Done([sc EXCEPT !.ss = "stream", !.ska = TRUE], Queue(q, Tok("SS", sc.p.r)))
    ELSE LET w == EatWs(e, sc.p, TRUE) IN
         IF w.t # "ok" THEN More(sc, q)
         ELSE LET s1 == [sc EXCEPT !.p = w.p, !.ska = @ \/ (w.p.l # sc.p.l /\ InBlock(sc))] IN
              IF Stale(s1) /\ KeyRequired(s1) THEN Fail(s1, q, "MissingValue")
              ELSE LET s2 == IF Stale(s1) THEN [s1 EXCEPT !.key.poss = "no"] ELSE s1
                       u == Unroll(s2, q, w.p.c)
                       n == Len(u.sc.inds)
                       (* a sequence which is indented like its parent ends at *)
                       (* the first line at its column without an entry        *)
                       pop == /\ n > 0
                              /\ InBlock(u.sc)
                              /\ u.sc.ind = w.p.c
                              /\ u.sc.inds[n].zi
                              /\ u.sc.inds[n].line < w.p.l
                              /\ ~(At(e, w.p.i) = 45 /\ IsWSZ(At(e, w.p.i + 1)))
                       s3 == IF pop THEN [u.sc EXCEPT !.ind = u.sc.inds[n].ind, !.inds = SubSeq(@, 1, n - 1)]
                             ELSE u.sc
                       q3 == IF pop THEN Queue(u.q, Tok("BE", w.p.r)) ELSE u.q
                   IN
                   IF At(e, w.p.i) = EOF THEN FetchEnd(s3, q3)
                   ELSE IF Short(e, w.p.i, 4) THEN More(s3, q3)
                   ELSE Dispatch(e, s3, q3, lz)
=============================================================================
