-------------------------------- MODULE Cases --------------------------------
(* What the modules which generate documents have in common.                *)
(*                                                                          *)
(* Each of them generates documents together with what these mean, from the *)
(* rules of YAML and not from how they are scanned. That the specification  *)
(* of the implementation (Run) agrees is checked by TLC (Agrees), and the   *)
(* cases are written out, to be replayed into the implementation (Emit).    *)
EXTENDS Conf, Props, TLC, Json

SP1(n) == Rep(SP, n)

RECURSIVE Cat(_)
Cat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Cat(Tail(ss))

(* What an event means *)
Tag2(t) == IF t = NONE THEN NONE ELSE <<t[1].handle, t[1].suffix>>
Scalar(anchor, tag, kind, style, data) == <<"scalar", anchor, tag, kind, style, data>>
Coll(k, anchor, tag, kind) == <<k, anchor, tag, kind>>

Abs(ev) ==
    CASE ev.k = "scalar" ->
            IF ev.v.t = "ok" THEN Scalar(ev.anchor, Tag2(ev.tag), ev.kind, ev.style, ev.v.data)
            ELSE <<"broken", ev.v.e>>
      [] ev.k \in {"seq+", "map+"} -> Coll(ev.k, ev.anchor, Tag2(ev.tag), ev.kind)
      [] ev.k = "alias" -> <<"alias", ev.name>>
      [] ev.k = "doc+" -> <<"doc+", ev.ver, ev.tags, ev.imp>>
      [] ev.k = "doc-" -> <<"doc-", ev.imp>>
      [] OTHER -> <<ev.k>>
AbsRun(r) == [i \in DOMAIN r.evs |-> Abs(r.evs[i])]

DefTags == {DefaultTags[j] : j \in DOMAIN DefaultTags}

(* One document, which isn't marked as such, without directives *)
Bare1(content) ==
    << <<"stream+">>, <<"doc+", <<1, 2>>, DefTags, TRUE>> >> \o content \o << <<"doc-", TRUE>>, <<"stream-">> >>

(* Where a scalar x (a function of its kind) stands, and so which events    *)
(* are around it                                                            *)
InShape(shape, x(_)) ==
    LET A(kind, c) == Scalar(NONE, NONE, kind, "plain", <<c>>)
        M(kind) == Coll("map+", NONE, NONE, kind)
        Q(kind) == Coll("seq+", NONE, NONE, kind)
        Nil == Scalar(NONE, NONE, "V", "plain", << >>)
        MEnd == <<"map-">>
        QEnd == <<"seq-">>
    IN
    CASE shape = "root"  -> << x("R") >>
      [] shape = "entry" -> << Q("R"), x("E"), QEnd >>
      [] shape = "list"  -> << Q("R"), x("E"), A("E", 118), QEnd >>
      [] shape = "value" -> << M("R"), A("K", 107), x("V"), MEnd >>
      [] shape = "next"  -> << M("R"), A("K", 107), x("V"), A("K", 108), A("V", 118), MEnd >>
      [] shape = "key"   -> << M("R"), x("K"), A("V", 118), MEnd >>
      [] shape = "pair"  -> << Q("R"), M("E"), x("K"), A("V", 118), MEnd, QEnd >>
      [] shape = "ekey"  -> << M("R"), x("K"), Nil, MEnd >>
      [] shape = "epair" -> << Q("R"), M("E"), x("K"), Nil, MEnd, A("E", 118), QEnd >>
      [] shape = "deep"  -> << Q("R"), M("E"), A("K", 107), x("V"), MEnd, A("E", 118), QEnd >>

Emit(d, e, l) == PrintT(ToJson([d |-> d, e |-> EncRun(e), l |-> EncRun(l)]))

(* d is a valid document, and these are its events *)
Means(d, events) ==
    LET e == Run(d, FALSE)
        l == Run(d, TRUE)
    IN
    /\ Emit(d, e, l)
    /\ PropsOf(d, e, l)
    /\ IF e.err = "" /\ l.err = "" /\ AbsRun(e) = events /\ AbsRun(l) = events THEN TRUE
       ELSE PrintT(<<"DISAGREES", d, events, AbsRun(e), e.err, AbsRun(l), l.err>>) /\ FALSE

(* d is not valid: it fails *)
Breaks(d) ==
    LET e == Run(d, FALSE)
        l == Run(d, TRUE)
    IN
    /\ Emit(d, e, l)
    /\ PropsOf(d, e, l)
    /\ IF e.err # "" THEN TRUE
       ELSE PrintT(<<"DISAGREES", d, "has no meaning", AbsRun(e)>>) /\ FALSE
=============================================================================
