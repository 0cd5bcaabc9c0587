--------------------------------- MODULE Big ---------------------------------
(* Documents in which something there is much of: long scalars, names and   *)
(* keys, deep nesting, many entries, lines and documents. What they mean    *)
(* follows from how they are made.                                          *)
(*                                                                          *)
(* Where that is not too much, Run is checked to agree (n <= Small); the    *)
(* others are only replayed.                                                *)
EXTENDS Cases

CONSTANTS Kinds, Sizes, Small

VARIABLE c      \* <<kind, n>>
Init == c \in Kinds \X Sizes
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

(* unit, n times *)
Many(unit, n) == LET k == Len(unit) IN [i \in 1..(k * n) |-> unit[((i - 1) % k) + 1]]
ManyEvs(evs, n) == Many(evs, n)

A == 97
Plain(kind, s) == Scalar(NONE, NONE, kind, "plain", s)
M(kind) == Coll("map+", NONE, NONE, kind)
Q(kind) == Coll("seq+", NONE, NONE, kind)
MEnd == <<"map-">>
QEnd == <<"seq-">>
V == Plain("V", <<118>>)
KW == Plain("K", <<119>>)
COLV == <<58, SP, 118>>             \* : v
KEYW == <<119, 58, SP>>             \* w:

(* The longest that an implicit key may be, from its start to its colon     *)
Limit == KeyLimit

(* [doc, ok, x]: the document, whether it is valid, what is in it *)
Doc1(doc, x) == [doc |-> doc, ok |-> TRUE, x |-> Bare1(x)]
Key(doc, len, x) == IF len <= Limit THEN Doc1(doc, x) ELSE [doc |-> doc, ok |-> FALSE, x |-> << >>]

Aft == Many(<<A>>, 3)

Made(k, n) ==
    LET as == Many(<<A>>, n)
        E == 233                    \* two bytes of UTF-8
        es == Many(<<E>>, n)
    IN
    CASE k = "plain"   -> Doc1(KEYW \o as, << M("R"), KW, Plain("V", as), MEnd >>)
      [] k = "words"   -> Doc1(Many(<<A, SP>>, n) \o <<A>>, << Plain("R", Many(<<A, SP>>, n) \o <<A>>) >>)
      [] k = "lines"   -> Doc1(Many(<<A, LF, SP>>, n) \o <<A>>, << Plain("R", Many(<<A, SP>>, n) \o <<A>>) >>)
      [] k = "breaks"  -> Doc1(<<SP, A>> \o Many(<<LF>>, n) \o <<SP, A>>,
                               << Plain("R", <<A>> \o Fold(n) \o <<A>>) >>)
      [] k = "single"  -> Doc1(<<39>> \o es \o <<39>>, << Scalar(NONE, NONE, "R", "single", es) >>)
      [] k = "quotes"  -> Doc1(<<45, SP, 39>> \o Many(<<39, 39>>, n) \o <<39>>,
                               << Q("R"), Scalar(NONE, NONE, "E", "single", Many(<<39>>, n)), QEnd >>)
      [] k = "escapes" -> Doc1(<<34>> \o Many(<<92, 110>>, n) \o <<34>>, << Scalar(NONE, NONE, "R", "double", Many(<<LF>>, n)) >>)
      [] k = "bsl"     -> Doc1(<<91, 34>> \o Many(<<92, 92>>, n) \o <<34, 44, A, 93>>,
                               << Q("R"), Scalar(NONE, NONE, "E", "double", Many(<<92>>, n)), Plain("E", <<A>>), QEnd >>)
      [] k = "folds"   -> Doc1(<<34>> \o Many(<<A, LF, SP>>, n) \o <<34>>,
                               << Scalar(NONE, NONE, "R", "double", Many(<<A, SP>>, n)) >>)
      [] k = "literal" -> Doc1(KEYW \o <<124, LF>> \o Many(<<SP, E, LF>>, n) \o KEYW \o <<118>>,
                               << M("R"), KW, Scalar(NONE, NONE, "V", "literal", Many(<<E, LF>>, n)), KW, V, MEnd >>)
      [] k = "folded"  -> Doc1(<<45, SP, 62, LF>> \o Many(<<SP, SP, A, LF>>, n + 1) \o <<45, SP, A>>,
                               << Q("R"), Scalar(NONE, NONE, "E", "folded", Many(<<A, SP>>, n) \o <<A, LF>>), Plain("E", <<A>>), QEnd >>)
      [] k = "line"    -> Doc1(<<124, 45, LF, SP>> \o as, << Scalar(NONE, NONE, "R", "literal", as) >>)
      [] k = "keeps"   -> Doc1(<<124, 43, LF, SP, A>> \o Many(<<LF>>, n), << Scalar(NONE, NONE, "R", "literal", <<A>> \o Many(<<LF>>, n)) >>)
      [] k = "indent"  -> Doc1(<<62, LF>> \o SP1(n) \o <<A, LF>> \o SP1(n) \o <<A, LF>>,
                               << Scalar(NONE, NONE, "R", "folded", <<A, SP, A, LF>>) >>)
      [] k = "column"  -> Doc1(<<119, 58, LF>> \o SP1(n) \o KEYW \o <<118, LF>> \o SP1(n) \o KEYW \o <<118, LF>> \o KEYW \o <<118>>,
                               << M("R"), KW, M("V"), KW, V, KW, V, MEnd, KW, V, MEnd >>)
      \* what is there comes back to a column far right
      [] k = "incolumn" -> LET K(i) == SP1(i) \o KEYW IN
                           Doc1(KEYW \o <<LF>> \o K(n) \o <<LF>> \o K(n + 1) \o <<118, LF>> \o K(n) \o <<118, LF>> \o KEYW \o <<118>>,
                                << M("R"), KW, M("V"), KW, M("V"), KW, V, MEnd, KW, V, MEnd, KW, V, MEnd >>)
      [] k = "seqcolumn" -> LET D(i) == SP1(i) \o <<45, SP>> IN
                           Doc1(<<45, LF>> \o D(n) \o <<45, SP, A, LF>> \o D(n + 2) \o <<A, LF>> \o D(n) \o <<A, LF, 45, SP, A>>,
                                << Q("R"), Q("E"), Q("E"), Plain("E", <<A>>), Plain("E", <<A>>), QEnd, Plain("E", <<A>>), QEnd,
                                   Plain("E", <<A>>), QEnd >>)
      [] k = "blanks"  -> Doc1(<<91>> \o SP1(n) \o <<A, TAB, 44>> \o Many(<<LF, TAB>>, n) \o <<A, 93>>,
                               << Q("R"), Plain("E", <<A>>), Plain("E", <<A>>), QEnd >>)
      [] k = "comment" -> Doc1(KEYW \o <<118, SP, 35>> \o es \o <<LF>> \o Many(<<35, LF>>, n) \o KEYW \o <<118>>,
                               << M("R"), KW, V, KW, V, MEnd >>)
      [] k = "anchor"  -> Doc1(<<38>> \o as \o <<SP, A>>, << Scalar(<<as>>, NONE, "R", "plain", <<A>>) >>)
      [] k = "alias"   -> Doc1(<<45, SP, 42>> \o as, << Q("R"), <<"alias", as>>, QEnd >>)
      [] k = "tag"     -> Doc1(<<33>> \o as \o <<SP, A>>, << Scalar(NONE, << <<33>>, as >>, "R", "plain", <<A>>) >>)
      [] k = "percent" -> Doc1(<<33>> \o Many(<<37, 52, 49>>, n) \o <<SP, A>>,
                               << Scalar(NONE, << <<33>>, Many(<<65>>, n) >>, "R", "plain", <<A>>) >>)
      [] k = "verbatim" -> Doc1(<<33, 60>> \o as \o <<62, SP, A>>, << Scalar(NONE, << << >>, as >>, "R", "plain", <<A>>) >>)
      [] k = "entries" -> Doc1(Many(<<45, SP, A, LF>>, n), << Q("R") >> \o Many(<< Plain("E", <<A>>) >>, n) \o << QEnd >>)
      [] k = "pairs"   -> Doc1(<<123>> \o Many(KEYW \o <<118, 44>>, n) \o <<125>>,
                               << M("R") >> \o Many(<< KW, V >>, n) \o << MEnd >>)
      [] k = "keysof"  -> Doc1(Many(KEYW \o <<118, LF>>, n), << M("R") >> \o Many(<< KW, V >>, n) \o << MEnd >>)
      [] k = "docs"    -> [doc |-> Many(<<45, 45, 45, SP, A, LF>>, n), ok |-> TRUE,
                           x |-> << <<"stream+">> >> \o Many(<< <<"doc+", <<1, 2>>, DefTags, FALSE>>, Plain("R", <<A>>), <<"doc-", TRUE>> >>, n)
                                 \o << <<"stream-">> >>]
      [] k = "dash"    -> Doc1(Many(<<45, SP>>, n) \o <<A>>,
                               << Q("R") >> \o Many(<< Q("E") >>, n - 1) \o << Plain("E", <<A>>) >> \o Many(<< QEnd >>, n))
      [] k = "flowseq" -> Doc1(Many(<<91>>, n) \o Many(<<93>>, n), << Q("R") >> \o Many(<< Q("E") >>, n - 1) \o Many(<< QEnd >>, n))
      [] k = "flowmap" -> Doc1(Many(<<123>> \o KEYW, n) \o <<118>> \o Many(<<125>>, n),
                               << M("R"), KW >> \o Many(<< M("V"), KW >>, n - 1) \o << V >> \o Many(<< MEnd >>, n))
      \* an implicit key, from where it starts
      [] k = "key"     -> Key(as \o COLV, n, << M("R"), Plain("K", as), V, MEnd >>)
      [] k = "key2"    -> Key(KEYW \o <<118, LF>> \o as \o COLV, n, << M("R"), KW, V, Plain("K", as), V, MEnd >>)
      [] k = "keyq"    -> Key(<<34>> \o Many(<<A>>, n - 2) \o <<34>> \o COLV, n,
                              << M("R"), Scalar(NONE, NONE, "K", "double", Many(<<A>>, n - 2)), V, MEnd >>)
      [] k = "keysp"   -> Key(Aft \o SP1(n - 3) \o COLV, n, << M("R"), Plain("K", Aft), V, MEnd >>)
      [] k = "keyanch" -> Key(<<38, A, SP>> \o Many(<<A>>, n - 3) \o COLV, n,
                              << M("R"), Scalar(<< <<A>> >>, NONE, "K", "plain", Many(<<A>>, n - 3)), V, MEnd >>)
      [] k = "keyalias" -> Key(<<42>> \o Many(<<A>>, n - 2) \o <<SP>> \o COLV, n, << M("R"), <<"alias", Many(<<A>>, n - 2)>>, V, MEnd >>)
      [] k = "keywide" -> Key(Many(<<E>>, n \div 2) \o SP1(n % 2) \o COLV, n, << M("R"), Plain("K", Many(<<E>>, n \div 2)), V, MEnd >>)
      [] k = "keyentry" -> Key(<<45, SP>> \o as \o COLV, n, << Q("R"), M("E"), Plain("K", as), V, MEnd, QEnd >>)
      [] k = "keypair" -> Key(<<91>> \o as \o COLV \o <<93>>, n, << Q("R"), M("E"), Plain("K", as), V, MEnd, QEnd >>)
      \* but an explicit one has none
      [] k = "explicit" -> Doc1(<<63, SP>> \o as \o <<LF>> \o COLV, << M("R"), Plain("K", as), V, MEnd >>)
      [] k = "explicitf" -> Doc1(<<123, 63, SP>> \o as \o <<SP>> \o COLV \o <<125>>, << M("R"), Plain("K", as), V, MEnd >>)

---------------------------------------------------------------------------
(* What is in these isn't a slice of the document, all of it *)
Rewritten == {"lines", "breaks", "quotes", "escapes", "bsl", "folds", "literal", "folded", "keeps", "indent", "percent"}

(* An event as it would be written down, without its marks *)
AsEvent(x, own) ==
    LET tag(t) == IF t = NONE THEN NONE ELSE << [handle |-> t[1], suffix |-> t[2], own |-> own] >> IN
    CASE x[1] = "scalar" -> [k |-> "scalar", a |-> 0, b |-> 0, anchor |-> x[2], tag |-> tag(x[3]), kind |-> x[4], style |-> x[5],
                             lz |-> FALSE, v |-> [t |-> "ok", data |-> x[6], own |-> own]]
      [] x[1] \in {"seq+", "map+"} -> [k |-> x[1], a |-> 0, b |-> 0, anchor |-> x[2], tag |-> tag(x[3]), kind |-> x[4]]
      [] x[1] = "alias" -> [k |-> "alias", a |-> 0, b |-> 0, name |-> x[2]]
      [] x[1] = "doc+" -> [k |-> "doc+", a |-> 0, b |-> 0, ver |-> x[2], tags |-> x[3], imp |-> x[4], own |-> own]
      [] x[1] = "doc-" -> [k |-> "doc-", a |-> 0, b |-> 0, imp |-> x[2]]
      [] OTHER -> [k |-> x[1], a |-> 0, b |-> 0]
Expected(m, own) ==
    IF m.ok THEN [i \in 1..(Len(m.x) + 1) |-> IF i <= Len(m.x) THEN Enc(1000000, AsEvent(m.x[i], own)) ELSE EncEnd]
    ELSE << EncErr(1000000, "InvalidKey") >>

Copied(ev) == \/ ev.k = "scalar" /\ ev.v.t = "ok" /\ ev.v.own
              \/ ev.k \in {"scalar", "seq+", "map+"} /\ ev.tag # NONE /\ ev.tag[1].own
              \/ ev.k = "doc+" /\ ev.own

Agrees(m, own) ==
    LET e == Run(m.doc, FALSE)
        l == Run(m.doc, TRUE)
    IN
    /\ PropsOf(m.doc, e, l)
    /\ own \/ \A i \in DOMAIN e.evs : ~Copied(e.evs[i])
    /\ IF m.ok THEN e.err = "" /\ AbsRun(e) = m.x /\ AbsRun(l) = m.x ELSE e.err # ""

Check ==
    LET m == Made(c[1], c[2])
        own == c[1] \in Rewritten
    IN
    /\ PrintT(ToJson([d |-> m.doc, e |-> Expected(m, own)]))
    /\ Len(m.doc) <= Small => (IF Agrees(m, own) THEN TRUE ELSE PrintT(<<"DISAGREES", c>>) /\ FALSE)
=============================================================================
