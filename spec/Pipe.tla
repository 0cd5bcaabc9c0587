-------------------------------- MODULE Pipe --------------------------------
(* A document which arrives bit by bit, and a caller who pulls events as    *)
(* they become available: every way to cut the document into at most        *)
(* MaxChunks chunks (and the rest of it), with and without a failure of the *)
(* source at any point.                                                     *)
(*                                                                          *)
(* Whenever scanning is interrupted by the end of a chunk, it has to be     *)
(* taken up again without anything lost, repeated or seen differently: what *)
(* the caller gets is what the document in memory comes to, or as much of   *)
(* it as there was before the source failed.                                *)
EXTENDS Cases

CONSTANTS
    Docs,       \* the documents
    MaxChunks,
    Faults      \* may the source fail?

VARIABLES
    d,          \* which document
    m,          \* the machine
    ch,         \* the chunks up to now
    out,        \* what the caller got: <<refills, event>>
    h           \* what is known of that (see Props)

vars == <<d, m, ch, out, h>>

Doc == Docs[d]
Left == Len(Doc) - m.e.n

Init == /\ d \in DOMAIN Docs
        /\ \E lz \in BOOLEAN : m = Owned(Docs[d], lz)
        /\ ch = << >> /\ out = << >> /\ h = Past0

(* The parser or the scanner *)
Work == /\ m.pc \in {"parse", "scan"}
        /\ m' = IF m.pc = "parse" THEN ParseStep(m) ELSE ScanStep(m)
        /\ UNCHANGED <<d, ch, out, h>>

(* A chunk arrives *)
Wide(i) == i <= Len(Doc) /\ Doc[i] > 127
Chunk(k) == /\ m.pc = "refill" /\ Len(ch) < MaxChunks
            /\ k <= Left
            \* none, but a part of a character
            /\ k = 0 => Wide(m.e.n + 1) /\ (ch # << >> => ch[Len(ch)] # 0)
            /\ m' = RefillStep(m, k, TRUE)
            /\ ch' = Append(ch, k)
            /\ UNCHANGED <<d, out, h>>
(* All that is left, and then the end *)
Rest == /\ m.pc = "refill"
        /\ m' = RefillStep(m, Left, Left > 0)
        /\ ch' = IF Left > 0 THEN Append(ch, Left) ELSE ch
        /\ UNCHANGED <<d, out, h>>
SourceFails == /\ Faults /\ m.pc = "refill"
        /\ m' = FailStep(m, "IO")
        /\ ch' = Append(ch, -1)
        /\ UNCHANGED <<d, out, h>>

(* The caller takes an event *)
Deliver == /\ m.pc = "event"
           /\ out' = Append(out, <<m.rd, m.ev[1]>>)
           /\ h' = Remember(h, m.ev[1])
           /\ m' = Take(m)
           /\ UNCHANGED <<d, ch>>

Next == Work \/ Deliver \/ Rest \/ SourceFails \/ \E k \in 0..Len(Doc) : Chunk(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Work \/ Deliver \/ Rest)

---------------------------------------------------------------------------
Finished == m.pc \in {"end", "err"}
All == TLCEval([i \in DOMAIN Docs |-> <<Run(Docs[i], FALSE), Run(Docs[i], TRUE)>>])
Whole == All[d][IF m.lz THEN 2 ELSE 1]
(* Nothing is borrowed from a reader *)
Unowned(ev) == CASE ev.k = "scalar" ->
                        [ev EXCEPT !.tag = IF @ = NONE THEN NONE ELSE << [@[1] EXCEPT !.own = FALSE] >>,
                                   !.v.own = FALSE]
                 [] ev.k \in {"seq+", "map+"} ->
                        [ev EXCEPT !.tag = IF @ = NONE THEN NONE ELSE << [@[1] EXCEPT !.own = FALSE] >>]
                 [] ev.k = "doc+" -> [ev EXCEPT !.own = FALSE]
                 [] OTHER -> ev
Same == LET r == Whole IN
        /\ Len(out) <= Len(r.evs)
        /\ \A i \in DOMAIN out : Unowned(out[i][2]) = Unowned(r.evs[i])

(* Every step of the way, what the caller has is the start of the whole *)
Prefix == m.pc \in {"refill", "end", "err"} => Same
(* and at the end the whole *)
Complete == m.pc = "end" => LET r == Whole IN r.err = "" /\ Len(out) = Len(r.evs)
Failure == m.pc = "err" =>
              \/ m.err = "IO" /\ ch # << >> /\ ch[Len(ch)] = -1
              \/ LET r == Whole IN r.err = m.err /\ Len(out) = Len(r.evs)
(* What is known of an event stays so, however it came *)
Sound == PastOk(Doc, m.e.o, m.lz, h)
(* The stream start needs no input, and no event more than there is *)
Frugal == \A i \in DOMAIN out : out[i][2].k = "stream+" => out[i][1] = 0

Outcome == [i \in 1..(Len(out) + 1) |->
              IF i <= Len(out) THEN Enc(out[i][1], out[i][2])
              ELSE IF m.pc = "end" THEN EncEnd ELSE EncErr(m.rd, m.err)]
Written == Finished => PrintT(ToJson([d |-> Doc, ch |-> ch, lz |-> m.lz, e |-> Outcome]))

Check == Prefix /\ Complete /\ Failure /\ Sound /\ Frugal /\ Written
(* It comes to an end *)
Ends == <>[]Finished
=============================================================================
