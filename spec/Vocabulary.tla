---- MODULE Vocabulary ----
(***************************************************************************)
(* A finite world of version texts: [epoch!] component {. component} [+l]   *)
(* over small vocabularies, with what they mean, worked out once.           *)
(***************************************************************************)
EXTENDS LawVersion, TLC, Json

CONSTANTS Epochs, Words, Locals, K

E0 == {<<>>}
E1 == {<<>>, <<49, 33>>}                                   \* none 1!
E3 == {<<>>, <<48, 33>>, <<49, 33>>, <<45, 49, 33>>}       \* none 0! 1! -1!
L0 == {<<>>}
L1 == {<<>>, <<43, 108>>}                                  \* none +l
L3 == {<<>>, <<43, 65>>, <<43, 97>>, <<43, 97, 98>>}       \* none +A +a +ab
W4 == {<<48>>, <<49>>, <<97>>, DevText}
W5 == W4 \cup {PostText}
W7 == W5 \cup {<<49, 48>>, <<66>>}                         \* 10 B
W9 == W7 \cup {<<48, 48>>, <<80, 111, 83, 116, 100, 101, 118>>}     \* 00 PoStdev
WNum == {<<48>>, <<49>>, <<48, 49>>, <<50>>, <<57>>, <<49, 48>>, MaxI32}
WTag == {<<97>>, <<65>>, <<98>>, <<97, 98>>, <<68, 69, 86>>, <<114, 99>>, <<120, 100, 101, 118>>, PostText,
         <<80, 79, 83, 84>>, <<100, 101, 118, 112, 111, 115, 116>>, <<112, 111>>, <<100, 101>>, <<383>>, <<115>>, <<48>>, <<49>>}

RECURSIVE Rel(_)
Rel(k) == IF k = 0 THEN {<<>>}
          ELSE Rel(k - 1) \cup { w \o (IF r = <<>> THEN <<>> ELSE <<Dot>> \o r) : w \in Words, r \in Rel(k - 1) }
Texts == SetToSeq({ e \o r \o l : e \in Epochs, r \in Rel(K), l \in Locals })
Size == Len(Texts)
Ix == 1 .. Size
Parts == [i \in Ix |-> Parse(Texts[i]).parts]
ASSUME \A i \in Ix : Accepted(Texts[i])
====
