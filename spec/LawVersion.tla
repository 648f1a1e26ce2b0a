---- MODULE LawVersion ----
(***************************************************************************)
(* What each recorded call on versions may answer, per property. A law     *)
(* whose antecedent belongs to another property accepts the event.         *)
(***************************************************************************)
EXTENDS Version, CompOp

(* ---- C01: reading is total and accepts exactly the well formed ---------- *)
LawC01(e) ==
    LET want == IF Accepted(e.t) THEN "ok" ELSE "err"
    IN e.ok = want /\ e.cok = want /\ e.pok = want

(* ---- C02: text and components ------------------------------------------ *)
IndexLaw(idx, parts) ==
    \A i \in 1 .. Len(idx) :
        idx[i] = IF i <= Len(parts) THEN parts[i] ELSE <<"!", <<>>>>
LawC02(e) ==
    (e.ok = "ok" /\ Accepted(e.t)) =>
        LET p == Parse(e.t).parts
        IN /\ e.s = e.t /\ e.d = e.t
           /\ e.n = Len(p) /\ e.parts = p
           /\ IndexLaw(e.idx, p)
           /\ e.cok = "ok" => e.cparts = p
           /\ e.pok = "ok" => e.pparts = p
LawC02Custom(e) ==
    /\ \A i \in 1 .. Len(e.arg) : e.arg[i] = e.t
    /\ IF e.err THEN e.ok = "err" /\ e.same
       ELSE /\ e.ok = "ok"
            /\ e.s = e.t /\ e.n = Len(e.given) /\ e.parts = e.given
            /\ IndexLaw(e.idx, e.given)

(* ---- C03: coherence of all entry points --------------------------------- *)
TFof(b) == IF b THEN "T" ELSE "F"
RelSeq == <<"Eq", "Ne", "Lt", "Le", "Gt", "Ge">>
RelCoherent(o) ==
    /\ o.cmp \in {-1, 0, 1}
    /\ o.cstr = o.cmp /\ o.pc = o.cmp
    /\ \A i \in 1 .. 6 : o.rel[i] = TFof(RelHolds(RelSeq[i], o.cmp))
BothRead(e) == e.ra = "ok" /\ e.rb = "ok"
LawC03(e) ==
    BothRead(e) =>
        /\ RelCoherent(e.ab) /\ RelCoherent(e.ba) /\ RelCoherent(e.aa) /\ RelCoherent(e.aa2)
        /\ e.ba.cmp = -e.ab.cmp
        /\ e.aa.cmp = 0 /\ e.aa2.cmp = 0

(* ---- C04: the observed comparisons form a total preorder ---------------- *)
LawC04(e) ==
    e.ok =>
    LET n == Len(e.ts) m == e.m N == 1 .. n IN
    /\ \A i \in N, j \in N : m[i][j] \in {-1, 0, 1}
    /\ \A i \in N, j \in N : m[i][j] <= 0 => \A k \in N : m[j][k] <= 0 => m[i][k] <= 0
    /\ \A i \in N, j \in N : m[i][j] = 0 => \A k \in N : m[i][k] = m[j][k]
    /\ \A l \in 1 .. Len(e.srt) :
          LET s == e.srt[l] IN
          /\ Len(s) = n
          /\ \A p \in 1 .. (n - 1) : m[s[p]][s[p + 1]] <= 0
          /\ \A p \in N : m[s[p]][e.srt[1][p]] = 0

(* ---- C05: numbers compare by value -------------------------------------- *)
NumericOnly(t) == /\ \A i \in 1 .. Len(t) : IsAsciiDigit(t[i]) \/ IsSep(t[i])
                  /\ \E i \in 1 .. Len(t) : IsAsciiDigit(t[i])
Numerals(t) == SelectSeq(SplitOn(t, IsSep), LAMBDA x : x # <<>>)
NumeralAt(s, i) == IF i <= Len(s) THEN s[i] ELSE <<>>
CmpNumerals(s, t) ==
    FoldLeft(LAMBDA acc, i : IF acc # 0 THEN acc ELSE CmpNum(NumeralAt(s, i), NumeralAt(t, i)),
             0, Positions(s, t))
LawC05Pair(a, b, cmp) ==
    (NumericOnly(a) /\ NumericOnly(b)) => cmp = CmpNumerals(Numerals(a), Numerals(b))
(* NAMED DEVIATION (known finding C05-oversize): a numeral above 2147483647  *)
(* is kept as a text and ranks as a tag.                                     *)
HasOversize(t) == \E i \in 1 .. Len(Numerals(t)) : CmpNum(Numerals(t)[i], MaxI32) > 0
DevC05Pair(a, b, cmp) ==
    /\ NumericOnly(a) /\ NumericOnly(b)
    /\ HasOversize(a) \/ HasOversize(b)
    /\ cmp = CmpText(a, b)
(* a, b differ at component k; a2, b2 continue them *)
LawC05Ext(e) ==
    (e.ok /\ Accepted(e.a) /\ Accepted(e.b) /\ Accepted(e.a2) /\ Accepted(e.b2)) =>
    LET pa == Parse(e.a).parts pb == Parse(e.b).parts
        k == FirstDiff(pa, pb)
    IN (/\ k > 0 /\ k <= Len(pa) /\ k <= Len(pb)
        /\ IsPrefix(pa, Parse(e.a2).parts) /\ IsPrefix(pb, Parse(e.b2).parts))
       => e.cmp = e.cmp2 /\ e.cmp # 0

(* ---- C06: tags ----------------------------------------------------------- *)
HasTag(p) == \E i \in 1 .. Len(p) : p[i][1] = "T"
TagCase(pa, pb) ==
    LET k == FirstDiff(pa, pb) IN
    IF k = 0 THEN HasTag(pa) \/ HasTag(pb)
    ELSE LET x == PartAt(pa, k)[1] y == PartAt(pb, k)[1]
         IN \/ x = "T" /\ y \in {"T", "I", "A"}
            \/ y = "T" /\ x \in {"I", "A"}
LawC06Pair(a, b, cmp) ==
    (Accepted(a) /\ Accepted(b)) =>
    LET pa == Parse(a).parts pb == Parse(b).parts
    IN TagCase(pa, pb) => cmp = Cmp(pa, pb)

(* NAMED DEVIATION (known finding C06-threefold): a letter whose folding has   *)
(* three characters is folded to them in the order third, first, second.       *)
FoldTurned1(c) == LET f == Fold1(c) IN IF Len(f) = 3 THEN <<f[3], f[1], f[2]>> ELSE f
FoldTurned(t) == FoldLeft(LAMBDA acc, c : acc \o FoldTurned1(c), <<>>, t)
HasThree(t) == \E i \in 1 .. Len(t) : Len(Fold1(t[i])) = 3
CmpPartTurned(x, y) == IF Class(x) = 2 /\ Class(y) = 2 THEN CmpSeq(FoldTurned(x[2]), FoldTurned(y[2]))
                       ELSE CmpPart(x, y)
CmpTurned(p, q) == FoldLeft(LAMBDA acc, i : IF acc # 0 THEN acc ELSE CmpPartTurned(PartAt(p, i), PartAt(q, i)),
                            0, Positions(p, q))
DevC06Pair(a, b, cmp) ==
    /\ Accepted(a) /\ Accepted(b) /\ (HasThree(a) \/ HasThree(b))
    /\ cmp = CmpTurned(Parse(a).parts, Parse(b).parts)

(* ---- C07: epochs and local parts ----------------------------------------- *)
EpochCase(pa, pb) ==
    \/ pa[1][1] = "E" /\ pb[1][1] # "E"
    \/ pb[1][1] = "E" /\ pa[1][1] # "E"
    \/ pa[1][1] = "E" /\ pb[1][1] = "E" /\ pa[1] # pb[1]
LocalCase(pa, pb) ==
    LET k == FirstDiff(pa, pb) IN
    k > 0 /\ LET x == PartAt(pa, k) y == PartAt(pb, k)
                 pos(z) == z[1] = "I" /\ z[2] # <<>>
             IN \/ x[1] = "L" /\ (y[1] \in {"L", "A"} \/ pos(y))
                \/ y[1] = "L" /\ (x[1] = "A" \/ pos(x))
(* "the same version with / without a local part": the front is the same text *)
LawC07Pair(a, b, cmp) ==
    (Accepted(a) /\ Accepted(b)) =>
    LET pa == Parse(a).parts pb == Parse(b).parts
    IN (EpochCase(pa, pb) \/ LocalCase(pa, pb)) => cmp = Cmp(pa, pb)

(* ---- C08: operators against the observed comparison ---------------------- *)
NotTF(x) == IF x = "T" THEN "F" ELSE IF x = "F" THEN "T" ELSE "P"
OpsLaw(o, n) ==
    /\ \A i \in 1 .. 8 : o.ops[i] = TFof(OpHolds(OpSeq[i], o.cmp, o.sw = "T"))
    /\ \A i \in 1 .. n : /\ o.ops[i] \in {"T", "F"}
                         /\ o.opss[i] = o.ops[i]
                         /\ o.inv[i] = NotTF(o.ops[i])
    /\ \A i \in 1 .. 6 : o.flip[i] = o.ops[i]
LawC08Pair(e) == BothRead(e) => OpsLaw(e.ab, 10) /\ OpsLaw(e.ba, 10)
(* NAMED DEVIATION (known finding C08-compatible): the compatibility          *)
(* operators are not implemented and abort.                                   *)
CompatAborts(o) == \A i \in 9 .. 10 : o.ops[i] = "P" /\ o.opss[i] = "P" /\ o.inv[i] = "P"
DevC08Pair(e) == /\ OpsLaw(e.ab, 8) /\ OpsLaw(e.ba, 8)
                 /\ CompatAborts(e.ab) /\ CompatAborts(e.ba)

(* ---- C09: vocabulary ------------------------------------------------------ *)
LawC09Op(e) ==
    LET o == e.o IN
    /\ e.sign = Sign(o) /\ e.name = Name(o)
    /\ e.invert = Invert(o) /\ e.as_inverted = Invert(o)
    /\ e.opposite = Opposite(o) /\ e.as_opposite = Opposite(o)
    /\ e.flip = Flip(o) /\ e.as_flipped = Flip(o)
    /\ e.factor = Factor(o) /\ e.ord = Ord(o)
    /\ e.back = IF Ord(o) = 8 THEN "none" ELSE FromOrd(Ord(o))
    /\ e.rsign = o /\ e.rname = o
    /\ e.eqs = <<o>>
LawC09Read(e) == e.sign = FromSign(e.t) /\ e.name = FromName(e.t)

(* ---- C10: prefixes of component lists ------------------------------------- *)
LawC10Pair(e) ==
    BothRead(e) => /\ e.ab.sw = TFof(StartsWith(e.pa, e.pb))
                   /\ e.ba.sw = TFof(StartsWith(e.pb, e.pa))
LawC10Pool(e) ==
    e.ok => LET N == 1 .. Len(e.ts) IN
            /\ \A i \in N : e.m[i][i] = "T"
            /\ \A i \in N, j \in N : e.m[i][j] \in {"T", "F"}
            /\ \A i \in N, j \in N : e.m[i][j] = "T" => \A k \in N : e.m[j][k] = "T" => e.m[i][k] = "T"
====
