---- MODULE CompareLoop ----
(***************************************************************************)
(* The comparison of two versions, and the test whether one starts with    *)
(* the other, as loops over two iterators: one position per step, with the  *)
(* decision table of components as the code has it (kinds are ranked, a     *)
(* zero is compared like a missing component, a missing component is the    *)
(* empty value of the other's kind). Checked against Cmp and StartsWith.    *)
(***************************************************************************)
EXTENDS Vocabulary

VARIABLES mode,      \* "cmp" or "sw"
          a, b,      \* texts compared
          left, right,  \* what the iterators still hold
          out        \* 2: not decided
vars == <<mode, a, b, left, right, out>>

Rank(x) == CASE x[1] = "E" -> 0 [] x[1] = "I" -> 1 [] x[1] = "L" -> 2 [] x[1] = "T" -> 3 [] x[1] = "Z" -> 4
EmptyOf(x) == CASE x[1] = "E" -> <<"E", <<0>>>> [] x[1] = "I" -> <<"I", <<>>>> [] x[1] = "L" -> <<"L", <<>>>>
                [] x[1] = "T" -> <<"T", <<>>>> [] x[1] = "Z" -> x
(* two flags: the one that is set wins *)
Wins(p, q) == IF p /\ ~q THEN 1 ELSE IF q /\ ~p THEN -1 ELSE 0
TagCmp(s, t) ==
    IF HasPost(s) \/ HasPost(t) THEN Wins(HasPost(s), HasPost(t))
    ELSE IF s = <<>> \/ t = <<>> THEN Wins(s = <<>>, t = <<>>)
    ELSE IF HasDev(s) \/ HasDev(t) THEN -Wins(HasDev(s), HasDev(t))
    ELSE CmpSeq(Fold(s), Fold(t))
SameKind(x, y) ==
    CASE x[1] = "E" -> SignOf(x[2][1] - y[2][1])
      [] x[1] = "I" -> CmpNum(x[2], y[2])
      [] x[1] = "L" -> CmpSeq(x[2], y[2])
      [] x[1] = "T" -> TagCmp(x[2], y[2])
      [] x[1] = "Z" -> 0
Zero(x) == x = <<"I", <<>>>>
Place(x, y) == IF x[1] = y[1] THEN SameKind(x, y)
               ELSE IF Zero(x) /\ y[1] \in {"L", "T"} THEN SameKind(EmptyOf(y), y)
               ELSE IF Zero(y) /\ x[1] \in {"L", "T"} THEN SameKind(x, EmptyOf(x))
               ELSE -SignOf(Rank(x) - Rank(y))

Init == /\ mode \in {"cmp", "sw"} /\ a \in Ix /\ b \in Ix
        /\ left = Parts[a] /\ right = Parts[b] /\ out = 2

Advance == left' = (IF left = <<>> THEN left ELSE Tail(left)) /\ right' = (IF right = <<>> THEN right ELSE Tail(right))
StepCmp ==
    /\ mode = "cmp" /\ out = 2
    /\ IF left = <<>> /\ right = <<>> THEN out' = 0 /\ UNCHANGED <<left, right>>
       ELSE LET x == IF left = <<>> THEN EmptyOf(right[1]) ELSE left[1]
                y == IF right = <<>> THEN EmptyOf(left[1]) ELSE right[1]
                d == Place(x, y)
            IN IF d # 0 THEN out' = d /\ UNCHANGED <<left, right>>
               ELSE UNCHANGED out /\ Advance
    /\ UNCHANGED <<mode, a, b>>
StepSw ==
    /\ mode = "sw" /\ out = 2
    /\ IF right = <<>> THEN out' = 1 /\ UNCHANGED <<left, right>>
       ELSE IF left = <<>> THEN out' = 0 /\ UNCHANGED <<left, right>>
       ELSE IF Place(left[1], right[1]) # 0 THEN out' = 0 /\ UNCHANGED <<left, right>>
       ELSE UNCHANGED out /\ Advance
    /\ UNCHANGED <<mode, a, b>>
Next == StepCmp \/ StepSw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- properties ------------------------------------------------------------- *)
Done == Len(Parts[a]) - Len(left)                   \* positions passed on the left
Decided == out # 2 => out = (IF mode = "cmp" THEN Cmp(Parts[a], Parts[b])
                             ELSE IF StartsWith(Parts[a], Parts[b]) THEN 1 ELSE 0)
(* while undecided, the positions passed are equal *)
PassedEqual == \A i \in 1 .. Max2(Len(Parts[a]) - Len(left), Len(Parts[b]) - Len(right)) : CmpAt(Parts[a], Parts[b], i) = 0
WhatIsLeft == /\ IsSuffix(left, Parts[a]) /\ IsSuffix(right, Parts[b])
Ends == <>(out # 2)
====
