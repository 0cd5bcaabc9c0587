------------------------------- MODULE Caller -------------------------------
(* What callers do with a stream: pull by value or through borrows, change  *)
(* between the two, give the stream up, and in the meantime (or afterwards) *)
(* copy, compare, evaluate, change and drop the scalars they have got.      *)
(*                                                                          *)
(* A history is a sequence of operations with their results, which depend   *)
(* on how far the stream was read and on what was done to that one scalar,  *)
(* and on nothing else.                                                     *)
EXTENDS Cases

CONSTANTS
    Docs,
    MaxOps,
    MaxSlots,
    Long        \* pulls of several events at once, too

VARIABLES
    d, lz,
    r,          \* what the stream has: [evs, err]
    pos,        \* events which were pulled
    over,       \* the error, or the end, has been reported
    mode,       \* who has the stream: "events", "iter", "gone"
    slots,      \* the scalars: lazy ones have an event, others a value
    hist

vars == <<d, lz, r, pos, over, mode, slots, hist>>

Init == /\ d \in DOMAIN Docs /\ lz \in BOOLEAN
        /\ r = LET x == Run(Docs[d], lz) IN [evs |-> x.evs, err |-> x.err]
        /\ pos = 0 /\ over = FALSE /\ mode = "events" /\ slots = << >> /\ hist = << >>

Did(op) == hist' = Append(hist, op)

(* What a pull at position p comes to *)
NameOf(ev) ==
    CASE ev.k = "stream+" -> "S+" [] ev.k = "stream-" -> "S-" [] ev.k = "doc+" -> "D+" [] ev.k = "doc-" -> "D-"
      [] ev.k = "seq+" -> "Q+" [] ev.k = "seq-" -> "Q-" [] ev.k = "map+" -> "M+" [] ev.k = "map-" -> "M-"
      [] ev.k = "scalar" -> "V" [] ev.k = "alias" -> "A"
Pulled(p, o) ==
    IF p <= Len(r.evs) THEN <<NameOf(r.evs[p]), r.evs[p].a>>
    ELSE IF r.err # "" /\ p = Len(r.evs) + 1 /\ ~o THEN <<"X", Category(r.err)>>
    ELSE <<"N">>
(* The scalar which came with it *)
Slot(ev) ==
    IF ev.lz THEN [t |-> "lazy", v |-> ev.v, style |-> ev.style]
    ELSE [t |-> "eager", v |-> [t |-> "ok", data |-> ev.v.data], style |-> ev.style]
SlotsOf(p, k) == Cat([j \in 1..k |-> IF p + j <= Len(r.evs) /\ r.evs[p + j].k = "scalar"
                                         THEN << Slot(r.evs[p + j]) >> ELSE << >>])

Pull_(name, k) ==
    LET gets == [j \in 1..k |-> Pulled(pos + j, over \/ j > Len(r.evs) + 1 - pos)]
        new == SlotsOf(pos, k)
    IN
    /\ Len(slots) + Len(new) <= MaxSlots
    /\ slots' = slots \o new
    /\ pos' = IF pos + k > Len(r.evs) THEN Len(r.evs) ELSE pos + k
    /\ over' = (over \/ pos + k > Len(r.evs))
    /\ Did(<<name, k, gets>>)
    /\ UNCHANGED <<d, lz, r, mode>>

Pulls == IF Long THEN {1, 3} ELSE {1}
Next1 == /\ mode = "iter" /\ \E k \in Pulls : Pull_("next", k)
Ref == /\ mode = "events" /\ \E k \in Pulls \union {0} : Pull_("ref", k)
Into == /\ mode = "events" /\ mode' = "iter"
        /\ Did(<<"into">>) /\ UNCHANGED <<d, lz, r, pos, over, slots>>
Inner == /\ mode = "iter" /\ mode' = "events"
         /\ Did(<<"inner">>) /\ UNCHANGED <<d, lz, r, pos, over, slots>>
Drop == /\ mode # "gone" /\ pos > 3 /\ mode' = "gone"
        /\ Did(<<"drop">>) /\ UNCHANGED <<d, lz, r, pos, over, slots>>

---------------------------------------------------------------------------
Live(s) == slots[s].t # "freed"
Value(x) == <<"ok", x.v.data, x.style>>
Result(x) == IF x.v.t = "ok" THEN Value(x) ELSE <<"err">>
(* what is left after evaluation by reference: if it failed, nothing *)
After(x) == IF x.v.t = "ok" THEN [x EXCEPT !.t = "eager"]
            ELSE [t |-> "eager", v |-> [t |-> "ok", data |-> << >>], style |-> "plain"]
With(s, x, op) == slots' = [slots EXCEPT ![s] = x] /\ Did(op) /\ UNCHANGED <<d, lz, r, pos, over, mode>>

By(s) == With(s, After(slots[s]), <<"by", s, Result(slots[s])>>)
TakeIt(s) == With(s, [slots[s] EXCEPT !.t = "freed"], <<"take", s, Result(slots[s])>>)
Free(s) == With(s, [slots[s] EXCEPT !.t = "freed"], <<"free", s>>)
Is(s) == With(s, slots[s], <<"is", s, slots[s].t = "eager">>)
(* a change to one is a change to that one only *)
Set(s) == LET x == After(slots[s]) IN
          /\ slots[s].t = "eager"
          /\ With(s, [x EXCEPT !.v.data = @ \o <<33>>], <<"set", s>>)
Copy(s) == /\ Len(slots) < MaxSlots
           /\ slots' = Append(slots, slots[s])
           /\ Did(<<"copy", s>>) /\ UNCHANGED <<d, lz, r, pos, over, mode>>
Same(s, t) == With(s, slots[s], <<"same", s, t, /\ slots[s].t = "eager" /\ slots[t].t = "eager"
                                               /\ slots[s].v.data = slots[t].v.data
                                               /\ slots[s].style = slots[t].style>>)

Next == /\ Len(hist) < MaxOps
        /\ \/ Next1 \/ Ref \/ Into \/ Inner \/ Drop
           \/ \E s \in DOMAIN slots :
                 /\ Live(s)
                 /\ \/ By(s) \/ TakeIt(s) \/ Free(s) \/ Is(s) \/ Set(s) \/ Copy(s)
                    \/ \E t \in DOMAIN slots : t >= s /\ Live(t) /\ Same(s, t)
Spec == Init /\ [][Next]_vars

(* Events come in order, each once, whoever pulls; and nothing after the end *)
RECURSIVE Gets(_)
Gets(i) == IF i = 0 THEN << >>
           ELSE Gets(i - 1) \o (IF hist[i][1] \in {"next", "ref"} THEN hist[i][3] ELSE << >>)
InOrder ==
    LET g == Gets(Len(hist))
    IN \A j \in DOMAIN g : g[j] = Pulled(j, j > Len(r.evs) + 1)
(* A scalar which nobody changed is what the document has *)
Honest == \A s \in DOMAIN slots : slots[s].t = "lazy" => lz

Written == Len(hist) = MaxOps => PrintT(ToJson([d |-> Docs[d], lz |-> lz, ops |-> hist]))
Check == InOrder /\ Honest /\ Written
=============================================================================
