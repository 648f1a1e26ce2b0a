---- MODULE ShowVersion ----
(***************************************************************************)
(* How versions and their components are shown.                             *)
(***************************************************************************)
EXTENDS Version

Quote == 34   Backslash == 92   LB == 91   RB == 93   NL == 10   Blank == 32   Opening == 40   Closing == 41   Sep == 44

RECURSIVE Decimal(_)
Decimal(n) == IF n < 0 THEN <<Dash>> \o Decimal(-n)
          ELSE IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

(* Epoch( Integer( LexicographicString( PEP440String( Empty *)
KEpoch == <<69, 112, 111, 99, 104>>
KInteger == <<73, 110, 116, 101, 103, 101, 114>>
KLex == <<76,101,120,105,99,111,103,114,97,112,104,105,99,83,116,114,105,110,103>>
KTag == <<80, 69, 80, 52, 52, 48, 83, 116, 114, 105, 110, 103>>
KEmpty == <<69, 109, 112, 116, 121>>
Called(k, x) == k \o <<Opening>> \o x \o <<Closing>>
PartText(x) == CASE x[1] = "E" -> Called(KEpoch, Decimal(x[2][1]))
                 [] x[1] = "I" -> Called(KInteger, IF x[2] = <<>> THEN <<48>> ELSE x[2])
                 [] x[1] = "L" -> Called(KLex, x[2])
                 [] x[1] = "T" -> Called(KTag, x[2])
                 [] x[1] = "Z" -> KEmpty

(* a list on one line, and with each member on lines of its own *)
ListText(s) == <<LB>> \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE <<Sep, Blank>>) \o s[i],
                                  <<>>, [i \in 1 .. Len(s) |-> i]) \o <<RB>>
Indent == <<Blank, Blank, Blank, Blank>>
Indented(t) == FoldLeft(LAMBDA acc, c : acc \o (IF c = NL THEN <<NL>> \o Indent ELSE <<c>>), Indent, t)
TallText(s) == IF s = <<>> THEN <<LB, RB>>
               ELSE FoldLeft(LAMBDA acc, x : acc \o Indented(x) \o <<Sep, NL>>, <<LB, NL>>, s) \o <<RB>>

VersionText(p) == ListText(Map(PartText, p))
TallVersionText(p) == TallText(Map(PartText, p))

(* texts in quotes: of the printable ASCII characters, the others are left open *)
Printable(t) == \A i \in 1 .. Len(t) : t[i] >= 32 /\ t[i] <= 126
Quoted(t) == FoldLeft(LAMBDA acc, c : acc \o (IF c \in {Quote, Backslash} THEN <<Backslash, c>> ELSE <<c>>), <<Quote>>, t) \o <<Quote>>

(* ---- what was shown can be read back ------------------------------------------ *)
(* (for texts without the signs that the lists are written with)                  *)
ShowSigns == {LB, RB, Opening, Closing, Sep, Blank}
Bare(p) == \A i \in 1 .. Len(p) : p[i][1] \in {"T", "L"} => \A j \in 1 .. Len(p[i][2]) : p[i][2][j] \notin ShowSigns
IsComma(c) == c = Sep
IsOpen(c) == c = Opening
Unlist(t) == Map(LAMBDA s : SelectSeq(s, LAMBDA c : c # Blank), SplitOn(SubSeq(t, 2, Len(t) - 1), IsComma))
Unshow(s) == IF s = KEmpty THEN <<"Z", <<>>>>
             ELSE LET k == SplitOn(s, IsOpen) x == SubSeq(k[2], 1, Len(k[2]) - 1)
                      d == IF x # <<>> /\ x[1] = Dash THEN -SmallVal(Tail(x)) ELSE SmallVal(x)
                  IN CASE k[1] = KEpoch -> <<"E", <<d>>>>
                       [] k[1] = KInteger -> <<"I", Norm(x)>>
                       [] k[1] = KLex -> <<"L", x>>
                       [] k[1] = KTag -> <<"T", x>>
Faithful(p) == Bare(p) => Map(Unshow, Unlist(VersionText(p))) = p
====
