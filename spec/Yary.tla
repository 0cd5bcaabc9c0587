-------------------------------- MODULE Yary --------------------------------
(* The whole pipeline, from characters to events, as a caller sees it: one *)
(* event per pull, an error at most once, nothing after either the last    *)
(* event or an error.                                                      *)
(*                                                                         *)
(* A machine m:                                                            *)
(*   e     the view of the input: e.s the document, e.n characters of      *)
(*         which are buffered, and e.x if there may be more                *)
(*   sc,q  the scanner, and the tokens which the parser has not consumed   *)
(*   nq    the tokens of the batch which is being scanned, base of which   *)
(*         were there when it was last interrupted by a refill             *)
(*   ps    the parser                                                      *)
(*   lz    whether scalars are deferred                                    *)
(*   pc    "parse", "scan", "refill" (blocked on input), "event" (m.ev is  *)
(*         due to the caller), "end", "err" (with m.err)                   *)
(*   rd    how many refills there were                                     *)
EXTENDS Parser

Machine(doc, n, x, lz) ==
    [e |-> [s |-> doc, o |-> Offsets(doc), n |-> n, x |-> x], sc |-> Scanner0, q |-> << >>, nq |-> << >>, base |-> 0,
     ps |-> Parser0, lz |-> lz, pc |-> "parse", ev |-> << >>, err |-> "", rd |-> 0]

(* The document is in memory *)
Borrowed(doc, lz) == Machine(doc, Len(doc), FALSE, lz)
(* It is read in chunks *)
Owned(doc, lz) == Machine(doc, 0, TRUE, lz)

ParseStep(m) ==
    IF m.ps.done THEN [m EXCEPT !.pc = "end"]
    ELSE LET r == ParseOne(m.ps, m.q, m.sc.ss = "done") IN
         CASE r.t = "event"  -> [m EXCEPT !.ps = r.ps, !.q = r.q, !.ev = <<r.ev>>, !.pc = "event"]
           [] r.t = "silent" -> [m EXCEPT !.ps = r.ps, !.q = r.q]
           [] r.t = "err"    -> [m EXCEPT !.pc = "err", !.err = r.e]
           [] r.t = "need"   -> [m EXCEPT !.pc = "scan", !.nq = << >>, !.base = 0]

(* Scan until there is a new token, and no implicit key is undecided *)
ScanStep(m) ==
    LET r == ScanOne(m.e, m.sc, m.nq, m.lz) IN
    CASE r.t = "err" -> [m EXCEPT !.pc = "err", !.err = r.e]
      [] r.t = "ext" -> [m EXCEPT !.sc = r.sc, !.nq = r.q, !.base = Len(r.q), !.pc = "refill"]
      [] r.t = "ok"  ->
            IF r.sc.ss = "done" \/ (Len(r.q) > m.base /\ ~KeyPossible(r.sc))
            THEN [m EXCEPT !.sc = r.sc, !.q = @ \o r.q, !.nq = << >>, !.pc = "parse"]
            ELSE [m EXCEPT !.sc = r.sc, !.nq = r.q]

(* k more characters arrive. If there never will be any more, that is the  *)
(* end (but there may be none yet: only some bytes of one).                *)
RefillStep(m, k, more) ==
    [m EXCEPT !.e.n = @ + k, !.e.x = more, !.pc = "scan", !.rd = @ + 1]

Take(m) == [m EXCEPT !.pc = "parse", !.ev = << >>]

(* The source of a machine: chunks of characters, and at last everything   *)
(* else. A chunk of -1 is an IO error, one of -2 is not UTF-8.             *)
NextChunk(m, chunks) ==
    LET left == Len(m.e.s) - m.e.n IN
    IF m.rd >= Len(chunks) \/ chunks[m.rd + 1] > left THEN left ELSE chunks[m.rd + 1]

FailStep(m, code) == [m EXCEPT !.pc = "err", !.err = code, !.rd = @ + 1]

Feed(m, chunks) ==
    LET k == NextChunk(m, chunks) IN
    IF k = -1 THEN FailStep(m, "IO")
    ELSE IF k = -2 THEN FailStep(m, "UTF8")
    ELSE RefillStep(m, k, k > 0 \/ m.rd < Len(chunks))

(* One step, of the machine or of its source *)
Step(m, chunks) ==
    CASE m.pc = "parse"  -> ParseStep(m)
      [] m.pc = "scan"   -> ScanStep(m)
      [] m.pc = "refill" -> Feed(m, chunks)

Returned(m) == m.pc \in {"event", "end", "err"}

(* What the next pull comes to: m.pc is "event", "end" or "err". (It takes *)
(* steps until then, in rounds of n, 2n, ..., which only is to keep the    *)
(* recursion of this definition shallow.)                                  *)
RECURSIVE Rounds(_, _, _)
Rounds(m, chunks, n) ==
    LET r == FoldLeft(LAMBDA a, i : IF Returned(a) THEN a ELSE Step(a, chunks), m, [i \in 1..n |-> i])
    IN IF Returned(r) THEN r ELSE Rounds(r, chunks, 2 * n)
Pull(m, chunks) == Rounds(m, chunks, 3)

(* All events of m, in rounds as well *)
EventOnce(a, chunks) ==
    IF a.stop THEN a
    ELSE LET m == Pull(a.m, chunks) IN
         IF m.pc = "event"
         THEN [m |-> Take(m), evs |-> Append(a.evs, m.ev[1]), rds |-> Append(a.rds, m.rd), stop |-> FALSE]
         ELSE [a EXCEPT !.m = m, !.stop = TRUE]
RECURSIVE EventRounds(_, _, _)
EventRounds(a, chunks, n) ==
    LET r == FoldLeft(LAMBDA b, i : EventOnce(b, chunks), a, [i \in 1..n |-> i])
    IN IF r.stop THEN r ELSE EventRounds(r, chunks, 2 * n)
Events(m, chunks) ==
    LET r == EventRounds([m |-> m, evs |-> << >>, rds |-> << >>, stop |-> FALSE], chunks, 6)
    IN [evs |-> r.evs, rds |-> r.rds, err |-> r.m.err, m |-> r.m]

Run(doc, lz) == Events(Borrowed(doc, lz), << >>)
RunChunks(doc, lz, chunks) == Events(Owned(doc, lz), chunks)
=============================================================================
