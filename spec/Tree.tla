-------------------------------- MODULE Tree --------------------------------
(* Documents written from trees: every way in which collections nest, in    *)
(* block and in flow style, with which events they are to have.             *)
(*                                                                          *)
(* A tree is a word of node constructors in prefix order. A constructor:    *)
(*   t   "leaf", "alias", "seq", "map"                                      *)
(*   n   how many nodes follow which are its children                       *)
(*   f   whether it is written in flow style                                *)
(*   lay how it is laid out (see Val and Flow)                              *)
(*   a, g, gs  its anchor and tag (<< >>: none), and the tag as it is       *)
(*       written                                                            *)
(*   s, st, v  (leaves) the text, style and value                           *)
(* A leaf whose lay is 2 has several lines, and is no implicit key.         *)
(*                                                                          *)
(* A style is how the tree is written:                                      *)
(*   ind       by how much nested collections are indented                  *)
(*   brk       the line break                                               *)
(*   note      what is at the end of a line: a comment, blanks, or nothing  *)
(*   gap       lines between others: comments, empty ones                   *)
(*   sep       what is between an indicator and what it indicates           *)
(*   pre       what is between an implicit key and its colon                *)
(*   own       are properties on a line of their own                        *)
(*   nxt       are nodes on the line after their indicator                  *)
(*   head, tail  are --- and ... written                                    *)
(*   col       the column where the root collection is                      *)
(*   open      is there nothing after the last node (or ...)                *)
EXTENDS Cases

CONSTANTS
    Nodes,      \* the constructors
    MaxLen,     \* how many nodes a tree may have
    Styles      \* the styles

VARIABLES w, need, sy

Init == w = << >> /\ need = 1 /\ sy \in DOMAIN Styles
Next == /\ need > 0
        /\ \E k \in DOMAIN Nodes :
              /\ Len(w) + need + Nodes[k].n <= MaxLen
              /\ w' = Append(w, k)
              /\ need' = need - 1 + Nodes[k].n
              /\ sy' = sy
Spec == Init /\ [][Next]_<<w, need, sy>>

St == Styles[sy]
ind == St.ind
Brk == St.brk

N(i) == Nodes[w[i]]

(* Where the subtree at i ends (the index after it) *)
RECURSIVE After(_, _)
After(i, k) == IF k = 0 THEN i ELSE After(i + 1, k - 1 + N(i).n)
EndOf(i) == After(i, 1)
(* the j-th child of the node at i *)
RECURSIVE Child(_, _)
Child(i, j) == IF j = 1 THEN i + 1 ELSE EndOf(Child(i, j - 1))

---------------------------------------------------------------------------
(* EVENTS                                                                   *)

Anchor2(x) == IF x.a = << >> THEN NONE ELSE <<x.a>>
TagX(x) == IF x.g = << >> THEN NONE ELSE x.g

Cat2(n, F(_)) == Cat([j \in 1..n |-> F(j)])

RECURSIVE Evs(_, _)
Evs(i, kind) ==
    LET x == N(i) IN
    CASE x.t = "leaf"  -> << Scalar(Anchor2(x), TagX(x), kind, x.st, x.v) >>
      [] x.t = "alias" -> << <<"alias", x.v>> >>
      [] x.t = "seq" ->
            << Coll("seq+", Anchor2(x), TagX(x), kind) >>
            \o Cat2(x.n, LAMBDA j : Evs(Child(i, j), "E"))
            \o << <<"seq-">> >>
      [] x.t = "map" ->
            << Coll("map+", Anchor2(x), TagX(x), kind) >>
            \o Cat2(x.n, LAMBDA j : Evs(Child(i, j), IF j % 2 = 1 THEN "K" ELSE "V"))
            \o << <<"map-">> >>

---------------------------------------------------------------------------
(* TEXT                                                                     *)

NL == St.note \o Brk \o St.gap
Props2(x) == (IF x.a = << >> THEN << >> ELSE <<38>> \o x.a) \o
             (IF x.a # << >> /\ x.g # << >> THEN <<SP>> ELSE << >>) \o x.gs
(* A new line, from column c on *)
Line(c) == NL \o SP1(c)
(* properties, then the text (key: on the same line, whatever the style) *)
With(x, s, c, key) ==
    LET p == Props2(x) IN
    IF p = << >> THEN s ELSE IF s = << >> THEN p
    ELSE p \o (IF St.own /\ ~key THEN Line(c + 1) ELSE St.sep) \o s

Empty(i) == N(i).t = "leaf" /\ N(i).s = << >>
Void(i) == Empty(i) /\ Props2(N(i)) = << >>
Simple(i) == N(i).t \in {"leaf", "alias"}

(* In flow style. lay 0: on one line, 1: one line for every entry, 2: tight, *)
(* 3: explicit keys, 4: a single pair, without braces (only in a sequence), *)
(* 5: a line for every indicator and node, 6: a comma at the end, 7: as 4,  *)
(* but tight. What is on further lines is right of column c. key: is this   *)
(* (in) an implicit key                                                     *)
RECURSIVE Flow(_, _, _)
FlowPair(i, j, x, c) ==
    LET k == Child(i, 2 * j - 1)
        v == Child(i, 2 * j)
        exp == x.lay \in {3, 5}
        to == IF x.lay = 5 THEN Line(c + 1) ELSE St.sep
        tight == x.lay \in {2, 7}
    IN (IF exp THEN <<63>> \o to ELSE << >>) \o Flow(k, c, ~exp)
       \o (IF Void(v) /\ ~exp /\ ~tight /\ x.lay # 4 THEN << >>      \* {a} is {a: }
           ELSE (IF x.lay = 5 THEN to
                 ELSE IF (N(k).t = "alias" \/ Props2(N(k)) # << >> \/ exp) /\ St.pre = << >> THEN <<SP>>
                 ELSE St.pre)
                \o <<58>> \o (IF tight /\ Void(v) THEN << >> ELSE to) \o Flow(v, c, FALSE))
Flow(i, c, key) ==
    LET x == N(i)
        sep == CASE x.lay = 1 -> <<44>> \o Line(c + 1)
                 [] x.lay = 2 -> <<44>>
                 [] x.lay = 5 -> Line(c + 1) \o <<44>> \o Line(c + 1)
                 [] OTHER -> <<44>> \o St.sep
        pad == IF x.lay \in {1, 5} THEN Line(c + 1) ELSE << >>
        last == IF x.lay = 6 /\ x.n > 0 THEN <<44>> \o St.sep ELSE << >>
        one == x.t = "map" /\ x.lay \in {4, 7}
    IN
    CASE x.t = "leaf"  -> With(x, x.s, c, key)
      [] x.t = "alias" -> <<42>> \o x.v
      [] x.t = "seq" ->
            With(x, <<91>> \o pad \o Cat2(x.n, LAMBDA j : (IF j > 1 THEN sep ELSE << >>) \o Flow(Child(i, j), c, key)) \o last \o pad \o <<93>>, c, key)
      [] one -> FlowPair(i, 1, x, c)
      [] x.t = "map" ->
            With(x, <<123>> \o pad \o Cat2(x.n \div 2, LAMBDA j : (IF j > 1 THEN sep ELSE << >>) \o FlowPair(i, j, x, c)) \o last \o pad \o <<125>>, c, key)

(* In block style, from column c on, to the end of a line. A collection is  *)
(* laid out                                                                 *)
(*   0  on lines of its own, indented                                       *)
(*   1  right after the indicator (where that is possible)                  *)
(*   2  on lines of its own, a sequence in a mapping not indented           *)
(*   3  (mapping) with explicit keys, as 0                                  *)
(*   5  (mapping) with explicit keys, as 1                                  *)
RECURSIVE Blk(_, _)

Block(x) == x.t = "leaf" /\ x.st \in {"literal", "folded"}
Header(x) == IF x.st = "literal" THEN <<124>> ELSE <<62>>
Keyable(i) == Simple(i) /\ ~Void(i) /\ ~Block(N(i)) /\ ~(N(i).t = "leaf" /\ N(i).lay = 2)

(* A node after an indicator of a collection at column c: in is "seq",      *)
(* "key" (after ?), "map" (after the : of an implicit key) or "val" (of an  *)
(* explicit one)                                                            *)
Val(i, c, in) ==
    LET x == N(i)
        p == Props2(x)
        d == c + ind
        \* from the indicator to the node, or its properties
        to == IF St.nxt THEN Line(d) ELSE St.sep
        props == IF p = << >> THEN << >> ELSE (IF St.own THEN Line(d) ELSE St.sep) \o p
    IN
    IF Void(i) THEN NL
    ELSE IF Block(x)
         THEN to \o With(x, Header(x), c, FALSE) \o Brk \o SP1(d) \o x.s \o Brk
    ELSE IF Simple(i) \/ x.f THEN to \o Flow(i, c, FALSE) \o NL
    ELSE IF x.lay \in {1, 5} /\ p = << >> /\ in # "map" /\ ind > 1 THEN Rep(SP, ind - 1) \o Blk(i, d)
    ELSE IF x.lay = 2 /\ x.t = "seq" /\ in # "seq"
         THEN props \o Line(c) \o Blk(i, c)
    ELSE props \o Line(d) \o Blk(i, d)

Blk(i, c) ==
    LET x == N(i) IN
    IF x.t = "seq"
    THEN Cat2(x.n, LAMBDA j : (IF j > 1 THEN SP1(c) ELSE << >>) \o <<45>> \o Val(Child(i, j), c, "seq"))
    ELSE Cat2(x.n \div 2, LAMBDA j :
            LET k == Child(i, 2 * j - 1)
                v == Child(i, 2 * j)
                \* a collection is never an implicit key, nor a block scalar, nor nothing
                exp == x.lay \in {3, 5} \/ ~Keyable(k)
                key == Flow(k, c, TRUE)
            IN (IF j > 1 THEN SP1(c) ELSE << >>)
               \o (IF exp THEN <<63>> \o Val(k, c, "key") \o
                               (IF Void(v) /\ x.lay \in {3, 5} THEN << >> ELSE SP1(c) \o <<58>> \o Val(v, c, "val"))
                   ELSE key \o (IF key # << >> /\ (N(k).t = "alias" \/ Empty(k)) /\ St.pre = << >> THEN <<SP>> ELSE St.pre)
                        \o <<58>> \o Val(v, c, "map")))

Whole ==
    LET x == N(1)
        p == Props2(x)
        to == IF ~St.head THEN << >> ELSE <<45, 45, 45>> \o (IF St.nxt THEN NL ELSE St.sep)
    IN
    (IF Block(x) THEN to \o With(x, Header(x), 0, FALSE) \o Brk \o SP1(ind) \o x.s \o Brk
     ELSE IF Simple(1) \/ x.f THEN to \o Flow(1, 0, FALSE) \o NL
     ELSE (IF p # << >> THEN to \o p \o NL ELSE IF St.head THEN <<45, 45, 45>> \o NL ELSE << >>)
          \o SP1(St.col) \o Blk(1, St.col))
    \o (IF St.tail THEN <<46, 46, 46>> \o Brk ELSE << >>)

Root == LET n == Len(Whole) IN
        IF ~St.open THEN Whole
        ELSE IF St.tail THEN SubSeq(Whole, 1, n - Len(Brk))
        ELSE IF \E i \in DOMAIN w : Block(N(i)) /\ \A j \in DOMAIN w : j > i => Void(j) THEN Whole      \* its break is content
        ELSE SubSeq(Whole, 1, n - Len(NL))

---------------------------------------------------------------------------
(* WHICH TREES CAN BE WRITTEN                                               *)

(* i is in flow style, or written as a part of something which is *)
RECURSIVE Parent(_, _)
Parent(i, j) == IF j < i /\ EndOf(j) > i /\ ~\E k \in (j + 1)..(i - 1) : EndOf(k) > i THEN j
                ELSE Parent(i, j - 1)
ParentOf(i) == IF i = 1 THEN 0 ELSE Parent(i, i - 1)
IndexOf(i) == LET p == ParentOf(i) IN CHOOSE j \in 1..N(p).n : Child(p, j) = i

Writable ==
    \A i \in DOMAIN w :
        LET x == N(i)
            p == ParentOf(i)
        IN
        /\ p # 0 /\ N(p).f => (x.t \in {"seq", "map"} => x.f) /\ ~Block(x)
        \* a bare pair is only one in a flow sequence, has one entry, and no properties
        /\ x.t = "map" /\ x.f /\ x.lay \in {4, 7} =>
              p # 0 /\ N(p).t = "seq" /\ N(p).f /\ x.n = 2 /\ Props2(x) = << >>
        \* a collection is not written as an implicit key, in flow style
        /\ p # 0 /\ N(p).t = "map" /\ N(p).f /\ x.t \in {"seq", "map"} /\ N(p).lay \notin {3, 5}
              => IndexOf(i) % 2 = 0
        \* nor is what has several lines
        /\ p # 0 /\ N(p).t = "map" /\ N(p).f /\ N(p).lay \notin {3, 5} /\ x.t = "leaf" /\ x.lay = 2 => IndexOf(i) % 2 = 0
        \* nothing at all isn't an entry of a flow sequence
        /\ p # 0 /\ N(p).t = "seq" /\ N(p).f => ~Void(i)
        \* nor a document
        /\ i = 1 => ~Void(i)
        \* a key which is nothing needs a ?
        /\ x.t = "map" /\ x.f /\ x.lay \notin {3, 5} => \A j \in 1..(x.n \div 2) : ~Void(Child(i, 2 * j - 1))

Stream == << <<"stream+">>, <<"doc+", <<1, 2>>, DefTags, ~St.head>> >> \o Evs(1, "R") \o << <<"doc-", ~St.tail>>, <<"stream-">> >>
Check == need = 0 /\ Writable => Means(Root, Stream)
=============================================================================
