------------------------------- MODULE Parser -------------------------------
(* One step of the parser: from its state and the tokens which are queued, *)
(* to an event, a silent step, an error, or the need for more tokens.      *)
(*                                                                         *)
(* The parser state ps:                                                    *)
(*   stk   a stack of states, the active one last                          *)
(*   tags  the handles declared in the current document                    *)
(*   done                                                                  *)
(* fin: no more tokens will ever come.                                     *)
EXTENDS Scanner, FiniteSets

Parser0 == [stk |-> <<"StreamStart">>, tags |-> {}, done |-> FALSE]

(* Results: [t] with "need", "err" e, "silent"/"event" ps q ev *)
Need == [t |-> "need"]
PErr(x) == [t |-> "err", e |-> x]
Event(ps, q, ev) == [t |-> "event", ps |-> ps, q |-> q, ev |-> ev]
Silent(ps, q) == [t |-> "silent", ps |-> ps, q |-> q]
(* The k-th token isn't there *)
Missing(fin) == IF fin THEN PErr("UnexpectedEOF") ELSE Need

Goto(ps, s) == [ps EXCEPT !.stk[Len(ps.stk)] = s]
(* Come back to s once the next node is complete *)
Return(ps, s) == [ps EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1) \o <<s>> \o <<@[Len(@)]>>]
Pop(ps) == IF Len(ps.stk) > 1 THEN [ps EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)] ELSE ps
(* The active state s waits below: a push leaves the active state on top,  *)
(* so it replaces itself when the node pops it.                            *)
Below(ps, s) == [ps EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1) \o <<s, @[Len(@)]>>]

DefaultTags == << << <<33>>, <<33>> >>,
                  << <<33, 33>>, <<116,97,103,58,121,97,109,108,46,111,114,103,44,50,48,48,50,58>> >> >>

NONE == << >>
SomeV(x) == <<x>>
EmptyScalar == [data |-> << >>, own |-> FALSE, t |-> "ok"]

Ev(k, a, b) == [k |-> k, a |-> a, b |-> b]
EvScalar(a, b, anchor, tag, kind, style, lz, v) ==
    [k |-> "scalar", a |-> a, b |-> b, anchor |-> anchor, tag |-> tag, kind |-> kind,
     style |-> style, lz |-> lz, v |-> v]
EvEmpty(mark, kind) == EvScalar(mark, mark, NONE, NONE, kind, "plain", FALSE, EmptyScalar)
EvNode(k, a, b, anchor, tag, kind) ==
    [k |-> k, a |-> a, b |-> b, anchor |-> anchor, tag |-> tag, kind |-> kind]
EvDocStart(a, b, ver, tags, imp, own) ==
    [k |-> "doc+", a |-> a, b |-> b, ver |-> ver, tags |-> tags, imp |-> imp, own |-> own]
EvDocEnd(a, b, imp) == [k |-> "doc-", a |-> a, b |-> b, imp |-> imp]

---------------------------------------------------------------------------
(* NODES                                                                   *)

CheckTag(ps, tag, scalar) ==
    IF tag = NONE THEN [t |-> "ok", tag |-> tag]
    ELSE LET h == tag[1].handle IN
         IF h = << >> THEN [t |-> "ok", tag |-> tag]
         ELSE IF scalar /\ h = <<33>> /\ tag[1].suffix = << >> THEN [t |-> "ok", tag |-> NONE]
         ELSE IF h \in ps.tags THEN [t |-> "ok", tag |-> tag]
         ELSE PErr("UndefinedTag")

TagOf(tok) == SomeV([handle |-> tok.handle, suffix |-> tok.suffix, own |-> tok.own])
AnchorOf(tok) == SomeV(tok.name)

NodeBody(ps, q, fin, block, kind, k, start, anchor, tag) ==
    (* the token at k is the node itself *)
    IF Len(q) < k THEN Missing(fin)
    ELSE LET tok == q[k]
             end == tok.m
             rest == SubSeq(q, k, Len(q))
             Coll(ev, state) ==
                LET c == CheckTag(ps, tag, FALSE) IN
                IF c.t # "ok" THEN c
                ELSE Event(Goto(ps, state), rest, EvNode(ev, start, end, anchor, tag, kind))
         IN
         CASE tok.k = "FSS" -> Coll("seq+", "FlowSequenceFirst")
           [] tok.k = "FMS" -> Coll("map+", "FlowMappingFirst")
           [] tok.k = "BSS" /\ block -> Coll("seq+", "BlockSequenceFirst")
           [] tok.k = "BMS" /\ block -> Coll("map+", "BlockMappingFirst")
           [] tok.k = "SC" ->
                LET c == CheckTag(ps, tag, TRUE) IN
                IF c.t # "ok" THEN c
                ELSE Event(Pop(ps), SubSeq(q, k + 1, Len(q)),
                           EvScalar(start, end, anchor, c.tag, kind, tok.style, tok.lz, tok.v))
           [] OTHER ->
                IF anchor = NONE /\ tag = NONE THEN PErr("MissingNode")
                ELSE LET c == CheckTag(ps, tag, TRUE) IN
                     IF c.t # "ok" THEN c
                     ELSE Event(Pop(ps), rest,
                                EvScalar(start, end, anchor, c.tag, kind, "plain", FALSE, EmptyScalar))

(* The node which starts at the head of q *)
Node(ps, q, fin, block, kind) ==
    IF q = << >> THEN Missing(fin)
    ELSE LET a == q[1] IN
         IF a.k = "ALI" THEN Event(Pop(ps), Tail(q), [k |-> "alias", a |-> a.m, b |-> a.m, name |-> a.name])
         ELSE IF a.k \notin {"ANC", "TAG"}
              THEN NodeBody(ps, q, fin, block, kind, 1, a.m, NONE, NONE)
         ELSE IF Len(q) < 2 THEN (IF fin THEN NodeBody(ps, q, fin, block, kind, 2, a.m, NONE, NONE) ELSE Need)
         ELSE LET b == q[2] IN
              IF a.k = "ANC" /\ b.k = "TAG"
                 THEN NodeBody(ps, q, fin, block, kind, 3, b.m, AnchorOf(a), TagOf(b))
              ELSE IF a.k = "TAG" /\ b.k = "ANC"
                 THEN NodeBody(ps, q, fin, block, kind, 3, b.m, AnchorOf(b), TagOf(a))
              ELSE IF a.k = "ANC" THEN NodeBody(ps, q, fin, block, kind, 2, a.m, AnchorOf(a), NONE)
              ELSE NodeBody(ps, q, fin, block, kind, 2, a.m, NONE, TagOf(a))

---------------------------------------------------------------------------
(* DOCUMENTS                                                               *)

(* The directives at the head of q; rest is what follows them *)
RECURSIVE Directives(_, _, _, _, _, _)
Directives(q, fin, k, ver, tags, end) ==
    IF Len(q) < k THEN Missing(fin)
    ELSE LET tok == q[k] IN
         IF tok.k = "VD"
         THEN IF ver # NONE THEN PErr("DuplicateVersion")
              ELSE Directives(q, fin, k + 1, SomeV(<<tok.major, tok.minor>>), tags, tok.m)
         ELSE IF tok.k = "TD"
         THEN IF \E j \in DOMAIN tags : tags[j][1] = tok.handle THEN PErr("DuplicateTagDirective")
              ELSE Directives(q, fin, k + 1, ver, Append(tags, <<tok.handle, tok.prefix>>), tok.m)
         ELSE [t |-> "ok", k |-> k,
               ver |-> IF ver = NONE THEN <<1, 2>> ELSE ver[1],
               tags |-> {tags[j] : j \in DOMAIN tags}
                        \cup {DefaultTags[j] : j \in {x \in DOMAIN DefaultTags :
                                 \A y \in DOMAIN tags : tags[y][1] # DefaultTags[x][1]}},
               \* a prefix had escapes
               own |-> \E j \in 1..(k - 1) : q[j].k = "TD" /\ q[j].own,
               end |-> end]

Handles(tags) == {x[1] : x \in tags}

DocStart(ps, q, fin, implicit, first) ==
    IF q = << >> THEN Missing(fin)
    ELSE IF ~first /\ q[1].k = "DE" THEN Silent(ps, Tail(q))
    ELSE LET tok == q[1]
             d == Directives(q, fin, 1, NONE, << >>, tok.m)
             Open(p, rest, end, imp) ==
                Event([p EXCEPT !.tags = Handles(d.tags)], rest,
                      EvDocStart(tok.m, end, d.ver, d.tags, imp, d.own))
         IN
         IF implicit /\ tok.k \notin {"TD", "VD", "DS", "SE"}
         THEN Open(Goto(Below(ps, "DocumentEnd"), "BlockNode"), q, d.end, TRUE)
         ELSE IF tok.k # "SE"
         THEN IF d.t # "ok" THEN d
              ELSE IF q[d.k].k # "DS" THEN PErr("MissingDocumentStart")
              ELSE Open(Goto(Below(ps, "DocumentEnd"), "DocumentContent"),
                        SubSeq(q, d.k + 1, Len(q)), q[d.k].m, FALSE)
         ELSE IF first
         THEN Open(Goto(ps, "DocumentEnd"), q, d.end, TRUE)
         ELSE Silent(Goto(ps, "StreamEnd"), q)

DocEnd(ps, q, fin) ==
    IF q = << >> THEN Missing(fin)
    ELSE LET tok == q[1] IN
         IF tok.k = "DE"
         THEN Event(Goto(ps, "DocumentStartImplicit"), Tail(q), EvDocEnd(tok.m, tok.m, FALSE))
         ELSE Event(Goto(ps, "DocumentStartExplicit"), q, EvDocEnd(tok.m, tok.m, TRUE))

DocContent(ps, q, fin) ==
    IF q = << >> THEN Missing(fin)
    ELSE IF q[1].k \in {"VD", "TD", "DS", "DE", "SE"} THEN Silent(Pop(ps), q)
    ELSE Node(ps, q, fin, TRUE, "R")

---------------------------------------------------------------------------
(* BLOCK COLLECTIONS                                                       *)

BlockSeq(ps, q, fin) ==
    IF q = << >> THEN Missing(fin)
    ELSE LET tok == q[1] IN
         IF tok.k = "BEN"
         THEN IF Len(q) < 2 THEN Missing(fin)
              ELSE IF q[2].k \in {"BEN", "BE"}
              THEN Event(Goto(ps, "BlockSequence"), Tail(q), EvEmpty(tok.m, "E"))
              ELSE Node(Below(ps, "BlockSequence"), Tail(q), fin, TRUE, "E")
         ELSE IF tok.k = "BE" THEN Event(Pop(ps), Tail(q), Ev("seq-", tok.m, tok.m))
         ELSE PErr("MissingBlockEntry")

BlockKey(ps, q, fin) ==
    IF q = << >> THEN Missing(fin)
    ELSE LET tok == q[1] IN
         IF tok.k = "KEY"
         THEN IF Len(q) < 2 THEN Missing(fin)
              ELSE IF q[2].k \in {"KEY", "VAL", "BE"}
              THEN Event(Goto(ps, "BlockMappingValue"), Tail(q), EvEmpty(q[2].m, "K"))
              ELSE Node(Below(ps, "BlockMappingValue"), Tail(q), fin, TRUE, "K")
         ELSE IF tok.k = "BE" THEN Event(Pop(ps), Tail(q), Ev("map-", tok.m, tok.m))
         ELSE PErr("MissingKey")

BlockValue(ps, q, fin) ==
    IF q = << >> THEN Missing(fin)
    ELSE IF q[1].k = "VAL"
         THEN IF Len(q) < 2 THEN Missing(fin)
              ELSE IF q[2].k \in {"KEY", "VAL", "BE"}
              THEN Event(Goto(ps, "BlockMapping"), Tail(q), EvEmpty(q[2].m, "V"))
              ELSE Node(Below(ps, "BlockMapping"), Tail(q), fin, TRUE, "V")
         ELSE Event(Goto(ps, "BlockMapping"), q, EvEmpty(q[1].m, "V"))

---------------------------------------------------------------------------
(* FLOW COLLECTIONS                                                        *)

FlowSeqTail(ps, q, fin) ==
    (* past the ',' *)
    IF q = << >> THEN Missing(fin)
    ELSE LET tok == q[1] IN
         IF tok.k = "KEY"
         THEN Event(Goto(ps, "FlowPairKey"), Tail(q), EvNode("map+", tok.m, tok.m, NONE, NONE, "E"))
         ELSE IF tok.k # "FSE" THEN Node(Below(ps, "FlowSequence"), q, fin, FALSE, "E")
         ELSE Event(Pop(ps), Tail(q), Ev("seq-", tok.m, tok.m))

FlowSeq(ps, q, fin, first) ==
    IF q = << >> THEN Missing(fin)
    ELSE IF q[1].k = "FSE" THEN Event(Pop(ps), Tail(q), Ev("seq-", q[1].m, q[1].m))
    ELSE IF first THEN FlowSeqTail(ps, q, fin)
    ELSE IF q[1].k = "FE" THEN FlowSeqTail(ps, Tail(q), fin)
    ELSE PErr("MissingFlowSequenceEntryOrEnd")

FlowPairKey(ps, q, fin) ==
    IF q = << >> THEN Missing(fin)
    ELSE IF q[1].k \in {"VAL", "FE", "FSE"}
         THEN Event(Goto(ps, "FlowPairValue"), q, EvEmpty(q[1].m, "K"))
         ELSE Node(Below(ps, "FlowPairValue"), q, fin, FALSE, "K")

FlowPairValue(ps, q, fin) ==
    IF q = << >> THEN Missing(fin)
    ELSE IF q[1].k # "VAL" THEN Event(Goto(ps, "FlowPairEnd"), q, EvEmpty(q[1].m, "V"))
    ELSE IF Len(q) < 2 THEN Missing(fin)
    ELSE IF q[2].k \in {"FE", "FSE"}
         THEN Event(Goto(ps, "FlowPairEnd"), Tail(q), EvEmpty(q[1].m, "V"))
         ELSE Node(Below(ps, "FlowPairEnd"), Tail(q), fin, FALSE, "V")

FlowPairEnd(ps, q, fin) ==
    IF q = << >> THEN Missing(fin)
    ELSE Event(Goto(ps, "FlowSequence"), q, Ev("map-", q[1].m, q[1].m))

FlowMapTail(ps, q, fin) ==
    IF q = << >> THEN Missing(fin)
    ELSE LET tok == q[1] IN
         IF tok.k = "KEY"
         THEN IF Len(q) < 2 THEN Missing(fin)
              ELSE IF q[2].k \in {"VAL", "FE", "FME"}
              THEN Event(Goto(ps, "FlowMappingValue"), Tail(q), EvEmpty(q[2].m, "K"))
              ELSE Node(Below(ps, "FlowMappingValue"), Tail(q), fin, FALSE, "K")
         ELSE IF tok.k # "FME" THEN Node(Below(ps, "FlowMappingEmpty"), q, fin, FALSE, "K")
         ELSE Event(Pop(ps), Tail(q), Ev("map-", tok.m, tok.m))

FlowMap(ps, q, fin, first) ==
    IF q = << >> THEN Missing(fin)
    ELSE IF q[1].k = "FME" THEN Event(Pop(ps), Tail(q), Ev("map-", q[1].m, q[1].m))
    ELSE IF first THEN FlowMapTail(ps, q, fin)
    ELSE IF q[1].k = "FE" THEN FlowMapTail(ps, Tail(q), fin)
    ELSE PErr("MissingFlowMappingEntryOrEnd")

FlowValue(ps, q, fin, empty) ==
    IF q = << >> THEN Missing(fin)
    ELSE IF empty \/ q[1].k # "VAL" THEN Event(Goto(ps, "FlowMapping"), q, EvEmpty(q[1].m, "V"))
    ELSE IF Len(q) < 2 THEN Missing(fin)
    ELSE IF q[2].k \in {"FE", "FME"}
         THEN Event(Goto(ps, "FlowMapping"), Tail(q), EvEmpty(q[2].m, "V"))
         ELSE Node(Below(ps, "FlowMapping"), Tail(q), fin, FALSE, "V")

---------------------------------------------------------------------------

ParseOne(ps, q, fin) ==
    LET s == ps.stk[Len(ps.stk)] IN
    CASE s = "StreamStart" ->
            IF q = << >> THEN Missing(fin)
            ELSE Event(Goto(ps, "DocumentStartFirst"), Tail(q), Ev("stream+", q[1].m, q[1].m))
      [] s = "StreamEnd" ->
            IF q = << >> THEN Missing(fin)
            ELSE Event([ps EXCEPT !.done = TRUE], Tail(q), Ev("stream-", q[1].m, q[1].m))
      [] s = "DocumentStartFirst" -> DocStart(ps, q, fin, TRUE, TRUE)
      [] s = "DocumentStartImplicit" -> DocStart(ps, q, fin, TRUE, FALSE)
      [] s = "DocumentStartExplicit" -> DocStart(ps, q, fin, FALSE, FALSE)
      [] s = "DocumentContent" -> DocContent(ps, q, fin)
      [] s = "DocumentEnd" -> DocEnd(ps, q, fin)
      [] s = "BlockNode" -> Node(ps, q, fin, TRUE, "R")
      [] s = "BlockSequenceFirst" -> BlockSeq(Goto(ps, "BlockSequence"), Tail(q), fin)
      [] s = "BlockSequence" -> BlockSeq(ps, q, fin)
      [] s = "BlockMappingFirst" -> BlockKey(Goto(ps, "BlockMapping"), Tail(q), fin)
      [] s = "BlockMapping" -> BlockKey(ps, q, fin)
      [] s = "BlockMappingValue" -> BlockValue(ps, q, fin)
      [] s = "FlowSequenceFirst" -> FlowSeq(ps, Tail(q), fin, TRUE)
      [] s = "FlowSequence" -> FlowSeq(ps, q, fin, FALSE)
      [] s = "FlowPairKey" -> FlowPairKey(ps, q, fin)
      [] s = "FlowPairValue" -> FlowPairValue(ps, q, fin)
      [] s = "FlowPairEnd" -> FlowPairEnd(ps, q, fin)
      [] s = "FlowMappingFirst" -> FlowMap(ps, Tail(q), fin, TRUE)
      [] s = "FlowMapping" -> FlowMap(ps, q, fin, FALSE)
      [] s = "FlowMappingValue" -> FlowValue(ps, q, fin, FALSE)
      [] s = "FlowMappingEmpty" -> FlowValue(ps, q, fin, TRUE)
=============================================================================
