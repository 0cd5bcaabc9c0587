-------------------------------- MODULE Props --------------------------------
(* What holds of every run, whatever the document is: the guarantees which  *)
(* a caller relies on, stated over the events alone.                        *)
(*                                                                          *)
(* PropsOf is an invariant of every module which generates documents; Past  *)
(* is the part of it which can be followed along a run, for Trace and for   *)
(* Pipe.                                                                    *)
EXTENDS Yary

---------------------------------------------------------------------------
(* THE GRAMMAR OF EVENTS                                                    *)
(* at   "start", "stream", "end", or "bad"                                  *)
(* fr   the open document and collections, innermost last; n counts the     *)
(*      nodes directly in it                                                *)

Gr0 == [at |-> "start", fr |-> << >>, docs |-> 0]
GrBad(g) == [g EXCEPT !.at = "bad"]
Top(g) == g.fr[Len(g.fr)]
GrPush(g, t) == [g EXCEPT !.fr = Append(@, [t |-> t, n |-> 0])]
GrPop(g) == [g EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
GrCount(g) == [g EXCEPT !.fr[Len(g.fr)].n = @ + 1]

(* May a node come next, and what is its place? *)
GrRoom(g) == g.fr # << >> /\ (Top(g).t = "doc" => Top(g).n = 0)
Place(g) == CASE Top(g).t = "doc" -> "R"
              [] Top(g).t = "seq" -> "E"
              [] Top(g).t = "map" -> IF Top(g).n % 2 = 0 THEN "K" ELSE "V"

Gr(g, ev) ==
    CASE g.at = "bad" -> g
      [] ev.k = "stream+" -> IF g.at = "start" THEN [g EXCEPT !.at = "stream"] ELSE GrBad(g)
      [] ev.k = "stream-" -> IF g.at = "stream" /\ g.fr = << >> /\ g.docs > 0
                             THEN [g EXCEPT !.at = "end"] ELSE GrBad(g)
      [] ev.k = "doc+" -> IF g.at = "stream" /\ g.fr = << >>
                          THEN GrPush([g EXCEPT !.docs = @ + 1], "doc") ELSE GrBad(g)
      [] ev.k = "doc-" -> IF Len(g.fr) = 1 THEN GrPop(g) ELSE GrBad(g)
      [] ev.k = "alias" -> IF GrRoom(g) THEN GrCount(g) ELSE GrBad(g)
      [] ev.k = "scalar" -> IF GrRoom(g) /\ ev.kind = Place(g) THEN GrCount(g) ELSE GrBad(g)
      [] ev.k \in {"seq+", "map+"} ->
            IF GrRoom(g) /\ ev.kind = Place(g)
            THEN GrPush(GrCount(g), IF ev.k = "seq+" THEN "seq" ELSE "map") ELSE GrBad(g)
      [] ev.k = "seq-" -> IF Len(g.fr) > 1 /\ Top(g).t = "seq" THEN GrPop(g) ELSE GrBad(g)
      [] ev.k = "map-" -> IF Len(g.fr) > 1 /\ Top(g).t = "map" /\ Top(g).n % 2 = 0
                          THEN GrPop(g) ELSE GrBad(g)

---------------------------------------------------------------------------
(* EVENTS BY THEMSELVES                                                     *)

IsName(s) == s # << >> /\ \A i \in DOMAIN s : IsAlnum(s[i])
(* ! or !! or !name! *)
IsHandle(s) == s = <<33>> \/ (Len(s) > 1 /\ s[1] = 33 /\ s[Len(s)] = 33
                              /\ \A i \in 2..(Len(s) - 1) : IsAlnum(s[i]))

IsChars(s) == \A i \in DOMAIN s : IsScalarValue(s[i])
(* a value which is borrowed is a slice of the document *)
IsSlice(d, s) == \E i \in 0..(Len(d) - Len(s)) : \A k \in DOMAIN s : d[i + k] = s[k]

(* What is known of any value, by its style *)
ValueOk(style, s) ==
    /\ IsChars(s)
    /\ style = "plain" /\ s # << >> => ~IsWS(s[1]) /\ ~IsWS(s[Len(s)])
    /\ style \in {"literal", "folded"} => \A i \in DOMAIN s : s[i] # CR \/ i = Len(s) \/ s[i + 1] # LF

(* o: where its characters are; declared: the handles of the document which is open *)
EventOk(d, o, declared, ev) ==
    /\ 0 <= ev.a /\ ev.a <= ev.b
    /\ \E i \in DOMAIN o : o[i] = ev.a
    /\ ev.a = ev.b \/ \E i \in DOMAIN o : o[i] = ev.b
    /\ ev.k = "alias" => IsName(ev.name)
    /\ ev.k \in {"scalar", "seq+", "map+"} =>
          /\ ev.anchor # NONE => IsName(ev.anchor[1])
          /\ ev.tag # NONE =>
                /\ ev.tag[1].handle = << >> \/ ev.tag[1].handle \in declared
                /\ IsChars(ev.tag[1].suffix)
                /\ ~ev.tag[1].own => IsSlice(d, ev.tag[1].suffix)
    /\ ev.k = "scalar" =>
          /\ ~ev.lz => ev.v.t = "ok"
          /\ ev.v.t = "ok" => ValueOk(ev.style, ev.v.data)
          /\ ev.v.t = "ok" /\ ~ev.v.own => IsSlice(d, ev.v.data)
    /\ ev.k = "doc+" =>
          /\ \A x \in ev.tags : IsHandle(x[1])
          /\ \A x, y \in ev.tags : x[1] = y[1] => x = y
          /\ \A j \in DOMAIN DefaultTags : \E x \in ev.tags : x[1] = DefaultTags[j][1]
          /\ \A j \in {1, 2} : ev.ver[j] \in 0..255

---------------------------------------------------------------------------
(* ALONG A RUN                                                              *)
(* g   the grammar                                                          *)
(* ok  everything was, up to now                                            *)
(* n   how many events there were, and at which mark the last one ended     *)
(* hs  the handles of the open document                                     *)

Past0 == [g |-> Gr0, n |-> 0, mark |-> 0, hs |-> {}, last |-> << >>]
Remember(h, ev) ==
    [g |-> Gr(h.g, ev), n |-> h.n + 1, mark |-> ev.a,
     hs |-> IF ev.k = "doc+" THEN Handles(ev.tags) ELSE h.hs,
     last |-> <<h.mark, ev>>]

(* There can't be more events than the document has room for *)
MostEvents(d) == 4 * Len(d) + 6

PastOk(d, o, lz, h) ==
    /\ h.g.at # "bad"
    /\ h.n <= MostEvents(d)
    /\ h.last # << >> =>
          /\ EventOk(d, o, h.hs, h.last[2])
          /\ h.last[1] <= h.last[2].a      \* the marks never go back
          /\ h.last[2].k = "scalar" /\ h.last[2].lz => lz

RECURSIVE Follow(_, _, _, _, _, _)
Follow(d, o, lz, evs, h, i) ==
    IF i > Len(evs) THEN [ok |-> TRUE, h |-> h]
    ELSE LET n == Remember(h, evs[i]) IN
         IF PastOk(d, o, lz, n) THEN Follow(d, o, lz, evs, n, i + 1) ELSE [ok |-> FALSE, h |-> n]

---------------------------------------------------------------------------
(* WHOLE RUNS                                                               *)

(* All of the events, or those before an error *)
RunOk(d, lz, r) ==
    LET f == Follow(d, r.m.e.o, lz, r.evs, Past0, 1) IN
    /\ f.ok
    /\ r.err = "" <=> f.h.g.at = "end"

(* What of an event doesn't depend on when its scalar is evaluated *)
Bare(ev) == IF ev.k = "scalar" THEN [ev EXCEPT !.lz = FALSE, !.v = [@ EXCEPT !.own = FALSE]] ELSE ev
BareRun(evs) == [i \in DOMAIN evs |->
    IF evs[i].k = "scalar" /\ evs[i].v.t = "ok" THEN Bare(evs[i])
    ELSE IF evs[i].k = "scalar" THEN [evs[i] EXCEPT !.lz = FALSE] ELSE evs[i]]

Broken(ev) == ev.k = "scalar" /\ ev.v.t # "ok"

(* Deferring scalars changes when something is found to be wrong with one, *)
(* and nothing else. A scalar which has no end fails in any case, by then  *)
(* for this reason, whatever else is wrong in it.                          *)
LazyOk(e, l) ==
    LET be == BareRun(e.evs)
        bl == BareRun(l.evs)
    IN
    /\ Len(be) <= Len(bl) /\ be = SubSeq(bl, 1, Len(be))
    /\ e.err = "" => l.err = "" /\ Len(bl) = Len(be)
    /\ e.err # "" => \/ l.err \in {e.err, "UnexpectedEOF"}
                     \/ \E i \in DOMAIN l.evs : Broken(l.evs[i]) /\ l.evs[i].v.e = e.err
    /\ (\E i \in DOMAIN l.evs : Broken(l.evs[i])) => e.err # ""

(* e: the run of d with every scalar evaluated, l: with them deferred *)
PropsOf(d, e, l) ==
    /\ RunOk(d, FALSE, e)
    /\ RunOk(d, TRUE, l)
    /\ LazyOk(e, l)
=============================================================================
