-------------------------------- MODULE Docs --------------------------------
(* Streams of documents, with their directives, and what they mean by the   *)
(* rules of YAML:                                                           *)
(*   - directives hold for the one document after them, which has to start  *)
(*     with ---, and are only read where no document is open                *)
(*   - there is one %YAML at most, and one %TAG for a handle                *)
(*   - ! and !! stand for what they do by default, unless a directive says  *)
(*     otherwise                                                            *)
(*   - a tag with a handle which is not declared is an error                *)
(*   - an implicit document is one without ---, an implicit end one without *)
(*     ...                                                                  *)
(*   - there may be any number of ... after a document                      *)
EXTENDS Cases

CONSTANTS
    Dirs,       \* the directives: [s, t, v] (t "ver": v the version, "tag": <<handle, prefix>>)
    Contents,   \* [s, own, tag, x]: the text, does it need a line of its own, the handle used ("": none), events
    MaxDirs, MaxDocs,
    MaxEnds,    \* how many ... there are after a document
    Between,        \* what is between documents, and before directives
    Brk

VARIABLES w, ds
(* w: the documents which are complete [ds, st, c, en], ds: the directives  *)
(* of the next one                                                          *)

Init == w = << >> /\ ds = << >>
Complete == ds = << >> /\ w # << >>
AddDir(k) == /\ Len(w) < MaxDocs /\ Len(ds) < MaxDirs
             /\ w # << >> => w[Len(w)].en > 0
             /\ ds' = Append(ds, k) /\ w' = w
AddDoc(st, c, en) ==
    /\ Len(w) < MaxDocs
    /\ ds # << >> => st
    /\ ~st => /\ Contents[c].s # << >>
              /\ w # << >> => w[Len(w)].en > 0
    /\ w' = Append(w, [ds |-> ds, st |-> st, c |-> c, en |-> en])
    /\ ds' = << >>
Next == \/ \E k \in DOMAIN Dirs : AddDir(k)
        \/ \E st \in BOOLEAN, en \in 0..MaxEnds, c \in DOMAIN Contents : AddDoc(st, c, en)
Spec == Init /\ [][Next]_<<w, ds>>

C(i) == Contents[w[i].c]
Text(i) ==
    Between \o Cat([j \in DOMAIN w[i].ds |-> Dirs[w[i].ds[j]].s \o Brk])
    \o (IF w[i].st THEN <<45, 45, 45>> \o (IF C(i).s = << >> \/ C(i).own THEN Brk ELSE <<SP>>) ELSE << >>)
    \o C(i).s \o (IF C(i).s = << >> THEN << >> ELSE Brk)
    \o Cat([j \in 1..w[i].en |-> <<46, 46, 46>> \o Brk])
Doc == Cat([i \in DOMAIN w |-> Text(i)])

DirsOf(i, t) == {j \in DOMAIN w[i].ds : Dirs[w[i].ds[j]].t = t}
D(i, j) == Dirs[w[i].ds[j]].v
Ver(i) == IF DirsOf(i, "ver") = {} THEN <<1, 2>> ELSE D(i, CHOOSE j \in DirsOf(i, "ver") : TRUE)
Given(i) == {D(i, j) : j \in DirsOf(i, "tag")}
Tags(i) == Given(i) \union {x \in DefTags : \A y \in Given(i) : y[1] # x[1]}

Bad(i) == \/ \E j, k \in DirsOf(i, "ver") : j # k
          \/ \E j, k \in DirsOf(i, "tag") : j # k /\ D(i, j)[1] = D(i, k)[1]
          \/ C(i).tag # << >> /\ \A x \in Tags(i) : x[1] # C(i).tag

Meaning(i) == << <<"doc+", Ver(i), Tags(i), ~w[i].st>> >> \o C(i).x \o << <<"doc-", w[i].en = 0>> >>

Check ==
    Complete =>
        IF \E i \in DOMAIN w : Bad(i) THEN Breaks(Doc)
        ELSE Means(Doc, << <<"stream+">> >> \o Cat([i \in DOMAIN w |-> Meaning(i)]) \o << <<"stream-">> >>)
=============================================================================
