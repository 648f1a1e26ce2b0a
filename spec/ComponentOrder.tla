---- MODULE ComponentOrder ----
(***************************************************************************)
(* The assumptions of OrderProof, on Version!CmpPart: the order of the      *)
(* components is a total preorder in which a zero, and only it, counts as   *)
(* absent. Every triple of components of a finite vocabulary is one state.  *)
(***************************************************************************)
EXTENDS Version

CONSTANTS Letters, Width      \* tags and local parts are all words over Letters up to Width, and those below

VARIABLES x, y, z
vars == <<x, y, z>>

RECURSIVE WordsUpTo(_)
WordsUpTo(n) == IF n = 0 THEN {<<>>} ELSE LET w == WordsUpTo(n - 1)
                IN w \cup { Append(u, c) : u \in { v \in w : Len(v) = n - 1 }, c \in Letters }
A1 == {97, 65, 98, 223, 955}                     \* a A b sharp-s lambda
Dev == <<100, 101, 118>>   DEV == <<68, 69, 86>>   Post == <<112, 79, 115, 84>>
Special0 == {Dev, DEV, Post, Dev \o Post, <<97>> \o Dev, Post \o <<122>>, <<115, 115>>, <<83, 83>>, <<112, 111, 383, 116>>,
             <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<48, 1633>>}
Texts == (WordsUpTo(Width) \ {<<>>}) \cup Special0
Numbers == {<<>>, <<49>>, <<50>>, <<57>>, <<49, 48>>, <<49, 49>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>}
Components == {<<"A", <<>>>>, <<"Z", <<>>>>}
              \cup { <<"E", <<n>>>> : n \in {-32768, -1, 0, 1, 32767} }
              \cup { <<"I", d>> : d \in Numbers }
              \cup { <<"T", t>> : t \in Texts } \cup { <<"L", t>> : t \in Texts }

Init == x \in Components /\ y = x /\ z = x
Next == \/ y = x /\ z = x /\ y' \in Components /\ z' = y' /\ UNCHANGED x
        \/ z = y /\ z' \in Components /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars

C(a, b) == CmpPart(a, b)
Typed == C(x, y) \in {-1, 0, 1}
Reflexive == C(x, x) = 0
Antisymmetric == C(y, x) = -C(x, y)
Transitive == (C(x, y) <= 0 /\ C(y, z) <= 0) => C(x, z) <= 0
ZeroIsAbsent == C(x, Absent) = 0 <=> x \in {Absent, <<"I", <<>>>>}
====
