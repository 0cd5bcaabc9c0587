-------------------------------- MODULE Conf --------------------------------
(* How runs are written down, by the specification and by the harness which *)
(* observes the real code: a sequence of                                    *)
(*     <<reads, kind of event, start, end, ...>>                            *)
(* and then <<reads, "X", code, category, io kind>> or <<0, "N">>.          *)
EXTENDS Yary

(* Errors fall into four categories, and convert into IO errors *)
Category(code) ==
    CASE code \in {"IntOverflow", "CorruptStream", "UTF8"} -> "Data"
      [] code = "UnexpectedEOF" -> "EOF"
      [] code = "IO" -> "IO"
      [] OTHER -> "Syntax"

(* an IO error is passed on as it is *)
IoKind(code) ==
    CASE Category(code) = "Syntax" -> "InvalidInput"
      [] Category(code) = "Data" -> "InvalidData"
      [] Category(code) = "EOF" -> "UnexpectedEof"
      [] OTHER -> "AsGiven"

EncTag(t) == IF t = NONE THEN << >> ELSE <<t[1].handle, t[1].suffix, t[1].own>>

(* none: the default ones *)
EncTags(tags) == IF tags = {DefaultTags[j] : j \in DOMAIN DefaultTags} THEN {} ELSE tags

Enc(rd, ev) ==
    CASE ev.k = "stream+" -> <<rd, "S+", ev.a, ev.b>>
      [] ev.k = "stream-" -> <<rd, "S-", ev.a, ev.b>>
      [] ev.k = "doc+" -> <<rd, "D+", ev.a, ev.b, ev.ver[1], ev.ver[2], ev.imp, EncTags(ev.tags), ev.own>>
      [] ev.k = "doc-" -> <<rd, "D-", ev.a, ev.b, ev.imp>>
      [] ev.k = "seq-" -> <<rd, "Q-", ev.a, ev.b>>
      [] ev.k = "map-" -> <<rd, "M-", ev.a, ev.b>>
      [] ev.k = "seq+" -> <<rd, "Q+", ev.a, ev.b, ev.anchor, EncTag(ev.tag), ev.kind>>
      [] ev.k = "map+" -> <<rd, "M+", ev.a, ev.b, ev.anchor, EncTag(ev.tag), ev.kind>>
      [] ev.k = "alias" -> <<rd, "A", ev.a, ev.b, ev.name>>
      [] ev.k = "scalar" -> <<rd, "V", ev.a, ev.b, ev.anchor, EncTag(ev.tag), ev.kind, ev.style, ev.lz, ev.v.t>>
                            \o (IF ev.v.t = "ok" THEN <<ev.v.data, ev.v.own>> ELSE <<ev.v.e, FALSE>>)

EncErr(rd, code) == <<rd, "X", code, Category(code), IoKind(code)>>
EncEnd == <<0, "N">>

EncRun(r) ==
    LET n == Len(r.evs) IN
    [i \in 1..(n + 1) |->
        IF i <= n THEN Enc(r.rds[i], r.evs[i])
        ELSE IF r.err = "" THEN EncEnd ELSE EncErr(r.m.rd, r.err)]
=============================================================================
