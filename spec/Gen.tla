--------------------------------- MODULE Gen ---------------------------------
(* All documents pre \o w \o post, for words w of at most MaxLen fragments  *)
(* out of Frags, in any of the Places, valid or not. Each is run, the       *)
(* properties of its run are checked, and it is written out, to be replayed *)
(* into the real code.                                                      *)
EXTENDS Cases

CONSTANTS Frags, MaxLen, Places

VARIABLES p, w

Init == p \in DOMAIN Places /\ w = << >>
Next == Len(w) < MaxLen /\ (\E f \in DOMAIN Frags : w' = Append(w, f)) /\ p' = p
Spec == Init /\ [][Next]_<<p, w>>

Doc == Places[p].pre \o Cat([i \in DOMAIN w |-> Frags[w[i]]]) \o Places[p].post

Check ==
    LET d == Doc
        e == Run(d, FALSE)
        l == Run(d, TRUE)
    IN
    /\ Emit(d, e, l)
    /\ PropsOf(d, e, l)
=============================================================================
