---- MODULE Version ----
(***************************************************************************)
(* What a version text means: its components, and how versions compare.    *)
(* A component is a pair <<kind, payload>>, payload a sequence of integers: *)
(*   <<"E", <<n>>>>   epoch n                                               *)
(*   <<"I", d>>       number, normalised ASCII digits, zero is <<>>         *)
(*   <<"T", t>>       tag, its text                                         *)
(*   <<"L", t>>       local part, its text                                  *)
(*   <<"Z", <<>>>>    the one component of a text without any               *)
(* "A" stands for a component that is absent.                               *)
(***************************************************************************)
EXTENDS Text

Bang == 33   Plus == 43   Dot == 46   Dash == 45   Under == 95
IsSep(c) == c = Dot \/ c = Under \/ c = Dash
IsBang(c) == c = Bang
IsPlus(c) == c = Plus

(* An optionally signed whole number in -32768 .. 32767, or not. *)
EpochOf(t) ==
    LET neg == t # <<>> /\ t[1] = Dash
        d   == IF t # <<>> /\ t[1] \in {Plus, Dash} THEN Tail(t) ELSE t
        n   == Norm(d)
        ok  == d # <<>> /\ AllAsciiDigits(d) /\ Len(n) <= 5
        v   == IF ok THEN SmallVal(n) ELSE 0
    IN IF ok /\ v <= (IF neg THEN 32768 ELSE 32767)
       THEN [ok |-> TRUE, n |-> IF neg THEN -v ELSE v]
       ELSE [ok |-> FALSE, n |-> 0]

(* Maximal runs of digits / of non-digits. *)
Runs(t) ==
    FoldLeft(LAMBDA acc, c :
               LET d == IsDigit(c)
               IN IF acc # <<>> /\ acc[Len(acc)].d = d
                  THEN [acc EXCEPT ![Len(acc)].s = Append(@, c)]
                  ELSE Append(acc, [d |-> d, s |-> <<c>>]),
             <<>>, t)

(* NAMED DEVIATION Oversize: a numeral above 2147483647 (or not in ASCII)    *)
(* does not fit VersionPart::Integer and is kept as a text.                  *)
IsNumeral(r) == r.d /\ AllAsciiDigits(r.s)
FitsInteger(r) == IsNumeral(r) /\ CmpNum(r.s, MaxI32) <= 0
RunPart(r) == IF FitsInteger(r) THEN <<"I", Norm(r.s)>> ELSE <<"T", r.s>>

ReleaseParts(t) ==
    FoldLeft(LAMBDA acc, piece : acc \o Map(RunPart, Runs(piece)), <<>>, SplitOn(t, IsSep))

Err == [ok |-> FALSE, parts |-> <<>>]
Parse(t) ==
    LET es == SplitOn(t, IsBang) IN
    IF Len(es) > 2 THEN Err ELSE
    LET ep   == IF Len(es) = 2 THEN EpochOf(es[1]) ELSE [ok |-> TRUE, n |-> 0]
        rest == es[Len(es)]
        ls   == SplitOn(rest, IsPlus)
    IN IF ~ep.ok \/ Len(ls) > 2 THEN Err ELSE
       LET e == IF Len(es) = 2 THEN << <<"E", <<ep.n>>>> >> ELSE <<>>
           l == IF Len(ls) = 2 /\ ls[2] # <<>> THEN << <<"L", ls[2]>> >> ELSE <<>>
           p == e \o ReleaseParts(ls[1]) \o l
       IN [ok |-> TRUE, parts |-> IF p = <<>> THEN << <<"Z", <<>>>> >> ELSE p]

(* Acceptance alone, on the text: C01. *)
Accepted(t) ==
    LET nb == Count(t, Bang) IN
    /\ nb <= 1
    /\ LET i == IF nb = 0 THEN 0 ELSE CHOOSE k \in 1 .. Len(t) : t[k] = Bang
       IN /\ nb = 1 => EpochOf(SubSeq(t, 1, i - 1)).ok
          /\ Count(SubSeq(t, i + 1, Len(t)), Plus) <= 1

(***************************************************************************)
(* Comparing components.                                                   *)
(***************************************************************************)
DevText  == <<100, 101, 118>>
PostText == <<112, 111, 115, 116>>
HasDev(t)  == HasSub(Map(RxFold1, t), DevText)
HasPost(t) == HasSub(Map(RxFold1, t), PostText)

Absent == <<"A", <<>>>>
PartAt(p, i) == IF i <= Len(p) THEN p[i] ELSE Absent

Class(x) == CASE x[1] = "Z" -> 0
              [] x[1] = "T" -> IF HasPost(x[2]) THEN 4 ELSE IF HasDev(x[2]) THEN 1 ELSE 2
              [] x[1] = "A" -> 3
              [] x[1] = "L" -> 5
              [] x[1] = "I" -> IF x[2] = <<>> THEN 3 ELSE 6
              [] x[1] = "E" -> 7

CmpPart(x, y) ==
    LET cx == Class(x) cy == Class(y) IN
    IF cx # cy THEN SignOf(cx - cy)
    ELSE CASE cx = 2 -> CmpSeq(Fold(x[2]), Fold(y[2]))
           [] cx = 5 -> CmpSeq(x[2], y[2])
           [] cx = 6 -> IF Len(x[2]) # Len(y[2]) THEN SignOf(Len(x[2]) - Len(y[2]))
                        ELSE CmpSeq(x[2], y[2])
           [] cx = 7 -> SignOf(x[2][1] - y[2][1])
           [] OTHER -> 0

(* The comparison with missing components: absent = absent, and the one empty *)
(* component equals an absent one (it only meets it against itself).          *)
CmpAt(p, q, i) == CmpPart(PartAt(p, i), PartAt(q, i))
Positions(p, q) == [i \in 1 .. Max2(Len(p), Len(q)) |-> i]
Cmp(p, q) == FoldLeft(LAMBDA acc, i : IF acc # 0 THEN acc ELSE CmpAt(p, q, i), 0, Positions(p, q))
(* first position with a difference, 0 if none *)
FirstDiff(p, q) == FoldLeft(LAMBDA acc, i : IF acc # 0 THEN acc
                                            ELSE IF CmpAt(p, q, i) # 0 THEN i ELSE 0,
                            0, Positions(p, q))

StartsWith(p, q) == Len(q) <= Len(p) /\ \A i \in 1 .. Len(q) : CmpPart(p[i], q[i]) = 0

CmpText(s, t) == Cmp(Parse(s).parts, Parse(t).parts)

(***************************************************************************)
(* Operators. c is the three-way comparison (-1, 0, 1), sw the prefix test. *)
(***************************************************************************)
RelOps == {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}
RelHolds(op, c) ==
    CASE op = "Eq" -> c = 0   [] op = "Ne" -> c # 0
      [] op = "Lt" -> c < 0   [] op = "Le" -> c <= 0
      [] op = "Gt" -> c > 0   [] op = "Ge" -> c >= 0
OpHolds(op, c, sw) ==
    CASE op \in RelOps -> RelHolds(op, c)
      [] op = "StartsWith" -> sw
      [] op = "NotStartsWith" -> ~sw
====
