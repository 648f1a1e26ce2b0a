---- MODULE Text ----
(***************************************************************************)
(* Texts are sequences of Unicode code points.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, UnicodeTables

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
SignOf(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

IsAsciiDigit(c) == c >= 48 /\ c <= 57
IsDigit(c) == IF c < 128 THEN IsAsciiDigit(c)
              ELSE \E b \in DigitBlocks : c >= b /\ c < b + 10
IsSpace(c) == c \in WhiteSpace

Fold1(c) ==
    IF c < FoldLimit THEN FoldTable[c + 1]
    ELSE IF \E r \in FoldRanges : r[1] <= c /\ c <= r[2] /\ (c - r[1]) % r[3] = 0
    THEN LET r == CHOOSE r \in FoldRanges : r[1] <= c /\ c <= r[2] /\ (c - r[1]) % r[3] = 0 IN <<c + r[4]>>
    ELSE IF \E i \in 1 .. Len(FoldMulti) : FoldMulti[i][1] = c
    THEN FoldMulti[CHOOSE i \in 1 .. Len(FoldMulti) : FoldMulti[i][1] = c][2]
    ELSE <<c>>
Fold(t) == FoldLeft(LAMBDA acc, c : acc \o Fold1(c), <<>>, t)

(* Letters as a case-insensitive regular expression over ASCII letters sees them. *)
RxFold1(c) == IF c >= 65 /\ c <= 90 THEN c + 32
              ELSE IF c = 383 THEN 115 ELSE IF c = 8490 THEN 107 ELSE c

(* Lower case as str::to_lowercase gives it, for the letters of the texts we use. *)
AsciiLower1(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c

HasSub(t, p) == \E i \in 0 .. (Len(t) - Len(p)) :
                   \A j \in 1 .. Len(p) : t[i + j] = p[j]

Map(F(_), t) == [i \in 1 .. Len(t) |-> F(t[i])]

(* Three-way comparison of two sequences of integers, first difference decides. *)
CmpSeq(a, b) ==
    LET n == Min2(Len(a), Len(b))
        d == FoldLeft(LAMBDA acc, i : IF acc # 0 THEN acc ELSE SignOf(a[i] - b[i]),
                      0, [i \in 1 .. n |-> i])
    IN IF d # 0 THEN d ELSE SignOf(Len(a) - Len(b))

(* Split at every character satisfying P; n separators give n + 1 pieces. *)
SplitOn(t, P(_)) ==
    LET r == FoldLeft(LAMBDA acc, c :
                        IF P(c) THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                        ELSE [done |-> acc.done, cur |-> Append(acc.cur, c)],
                      [done |-> <<>>, cur |-> <<>>], t)
    IN Append(r.done, r.cur)

Count(t, c) == FoldLeft(LAMBDA n, x : IF x = c THEN n + 1 ELSE n, 0, t)
Has(t, c) == \E i \in 1 .. Len(t) : t[i] = c

StartsWithText(t, p) == Len(t) >= Len(p) /\ \A i \in 1 .. Len(p) : t[i] = p[i]
EndsWithText(t, p) == Len(t) >= Len(p) /\ \A i \in 1 .. Len(p) : t[Len(t) - Len(p) + i] = p[i]

(* Strip from the end / from both ends the characters satisfying P. *)
RECURSIVE TrimEnd(_, _)
TrimEnd(t, S) == IF t = <<>> THEN t
                 ELSE IF t[Len(t)] \in S THEN TrimEnd(SubSeq(t, 1, Len(t) - 1), S) ELSE t
RECURSIVE TrimStart(_, _)
TrimStart(t, S) == IF t = <<>> THEN t
                   ELSE IF t[1] \in S THEN TrimStart(Tail(t), S) ELSE t
Trim(t) == TrimStart(TrimEnd(t, WhiteSpace), WhiteSpace)

(***************************************************************************)
(* Numerals: sequences of ASCII digits, of any length.                     *)
(***************************************************************************)
Norm(d) == TrimStart(d, {48})                       \* zero is <<>>
CmpNum(a, b) == LET x == Norm(a) y == Norm(b)
                IN IF Len(x) # Len(y) THEN SignOf(Len(x) - Len(y)) ELSE CmpSeq(x, y)
MaxI32 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
MaxU64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
MaxU16 == <<54, 53, 53, 51, 53>>
MaxU8  == <<50, 53, 53>>
AllAsciiDigits(t) == \A i \in 1 .. Len(t) : IsAsciiDigit(t[i])
(* the value of a numeral known to be small *)
SmallVal(d) == FoldLeft(LAMBDA n, c : 10 * n + (c - 48), 0, d)
====
