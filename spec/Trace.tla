-------------------------------- MODULE Trace --------------------------------
(* Is every recorded run of the real code a behaviour of the specification? *)
(*                                                                          *)
(* A run is a document d, whether scalars are deferred (lz), whether it was *)
(* read from a source (ow) in chunks ch, and what the caller saw: ops.      *)
(* Each step of this specification is one pull by the caller. An op which   *)
(* isn't what the machine comes to is printed, and ends its run.            *)
EXTENDS Conf, Props, TLC, Json, IOUtils

CONSTANTS Lanes

Runs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Runs)
(* which aspects of events are compared *)
AspectList == ndJsonDeserialize(IOEnv.ASPECTS)[1]
Aspects == {AspectList[i] : i \in DOMAIN AspectList}

VARIABLES
    c,      \* the run
    l,      \* its next op
    m,      \* the machine
    h       \* what is remembered of its past (see Props)

vars == <<c, l, m, h>>

Start(i) == IF Runs[i].ow THEN Owned(Runs[i].d, Runs[i].lz) ELSE Borrowed(Runs[i].d, Runs[i].lz)
Op == Runs[c].ops[l]

Reject(what, expected) ==
    PrintT(ToJson([rejected |-> c, op |-> l, what |-> what, expected |-> expected, got |-> Op,
                   d |-> Runs[c].d, id |-> Runs[c].id]))

Has(x) == x \in Aspects
Same(x, want, got) == ~Has(x) \/ want = got

(* x: the event as the specification has it, y: as it was recorded *)
MatchNode(x, y) ==
    /\ Same("names", x[5], y[5])
    /\ Same("tags", IF x[6] = << >> THEN << >> ELSE SubSeq(x[6], 1, 2),
                    IF y[6] = << >> THEN << >> ELSE SubSeq(y[6], 1, 2))
    /\ (Has("own") /\ x[6] # << >> /\ y[6] # << >> /\ ~x[6][3]) => ~y[6][3]
    /\ Same("kinds", x[7], y[7])

MatchScalar(x, y) ==
    /\ MatchNode(x, y)
    /\ x[10] = "ok" /\ y[10] = "ok" => Same("styles", x[8], y[8])
    /\ Same("lz", x[9], y[9])
    /\ Has("values") =>
          /\ x[10] = y[10]
          /\ x[10] = "ok" \/ Has("codes") => x[11] = y[11]
    /\ (Has("own") /\ x[10] = "ok" /\ y[10] = "ok" /\ ~x[12]) => ~y[12]

TagSet(t) == IF t = << >> THEN {} ELSE {t[i] : i \in DOMAIN t}

Match(x, y) ==
    /\ x[2] = y[2]
    /\ Same("marks", <<x[3], x[4]>>, <<y[3], y[4]>>)
    /\ Has("reads") => y[1] <= x[1]
    /\ CASE x[2] \in {"Q+", "M+"} -> MatchNode(x, y)
         [] x[2] = "V" -> MatchScalar(x, y)
         [] x[2] = "A" -> Same("names", x[5], y[5])
         [] x[2] = "D-" -> Same("docs", x[5], y[5])
         [] x[2] = "D+" -> Same("docs", <<x[5], x[6], x[7]>>, <<y[5], y[6], y[7]>>)
                           /\ Same("docs", x[8], TagSet(y[8]))
                           /\ (Has("own") /\ ~x[9]) => ~y[9]
         [] OTHER -> TRUE

MatchErr(x, y) ==
    /\ y[2] = "X"
    /\ Same("cats", <<x[4], x[5]>>, <<y[4], y[5]>>)
    /\ y[3] # "?" => Same("codes", x[3], y[3])
    /\ Has("reads") => y[1] <= x[1]

Init == /\ c \in 1..(IF N < Lanes THEN N ELSE Lanes)
        /\ l = 1
        /\ m = Start(c)
        /\ h = Past0

(* On to the next run of this lane *)
NextRun == /\ c' = c + Lanes
           /\ l' = 1
           /\ m' = IF c + Lanes <= N THEN Start(c + Lanes) ELSE m
           /\ h' = Past0

AnEvent(p) ==
    LET x == Enc(p.rd, p.ev[1]) IN
    IF Match(x, Op)
    THEN /\ c' = c /\ l' = l + 1 /\ m' = Take(p)
         /\ h' = Remember(h, p.ev[1])
         /\ IF PastOk(Runs[c].d, p.e.o, Runs[c].lz, h') THEN TRUE ELSE Reject("property", x)
    ELSE Reject("event", x) /\ NextRun

AFailure(p) ==
    LET x == EncErr(p.rd, p.err) IN
    (IF MatchErr(x, Op) THEN TRUE ELSE Reject("failure", x)) /\ NextRun

TheEnd == (IF Op[2] = "N" THEN TRUE ELSE Reject("end", EncEnd)) /\ NextRun

Next ==
    /\ c <= N
    /\ LET p == Pull(m, Runs[c].ch) IN
       CASE p.pc = "event" -> AnEvent(p)
         [] p.pc = "err"   -> AFailure(p)
         [] p.pc = "end"   -> TheEnd

Spec == Init /\ [][Next]_vars
=============================================================================
