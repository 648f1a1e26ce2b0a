---- MODULE OrderLaws ----
(***************************************************************************)
(* The laws users rely on, checked on every pair and triple of the versions *)
(* of a finite world: a session picks versions one after another, the laws  *)
(* are invariants of what was picked. The same module deals out the pools   *)
(* of texts that are replayed against the code: every pair is in one pool.  *)
(***************************************************************************)
EXTENDS Vocabulary

CONSTANTS Block, Emit        \* versions per half pool

VARIABLES picked             \* sequence of at most three versions
vars == picked

M == [i \in Ix |-> [j \in Ix |-> Cmp(Parts[i], Parts[j])]]
S == [i \in Ix |-> [j \in Ix |-> StartsWith(Parts[i], Parts[j])]]
Continuations == [i \in Ix |-> {c \in Ix : IsPrefix(Parts[i], Parts[c])}]
ASSUME \A i \in Ix : \A j \in Ix : M[i][j] \in {-1, 0, 1}

Init == picked = <<>>
Pick(i) == Len(picked) < 2 /\ picked' = Append(picked, i)
Next == \E i \in Ix : Pick(i)
Spec == Init /\ [][Next]_vars

P1 == Len(picked) = 1
P2 == Len(picked) = 2
A == picked[1]
B == picked[2]
PA == Parts[A]
PB == Parts[B]

(* C03, C04: a total preorder *)
Reflexive == P1 => M[A][A] = 0
Antisymmetric == P2 => M[B][A] = -M[A][B]
Transitive == P2 => \A c \in Ix : (M[A][B] <= 0 /\ M[B][c] <= 0)
                                  => M[A][c] = (IF M[A][B] = 0 /\ M[B][c] = 0 THEN 0 ELSE -1)
(* C08: exactly one of < == >; each operator has its complement and mirror image *)
Trichotomy == P2 => Cardinality({op \in {"Lt", "Eq", "Gt"} : RelHolds(op, M[A][B])}) = 1
Complement == P2 => \A op \in Ops \ {"Compatible", "Incompatible"} :
                       OpHolds(Invert(op), M[A][B], S[A][B]) = ~OpHolds(op, M[A][B], S[A][B])
Mirror == P2 => \A op \in RelOps : RelHolds(op, M[A][B]) = RelHolds(Flip(op), M[B][A])
(* C05: the first difference decides; zeros at the end do not matter *)
FirstDecides == P2 => LET k == FirstDiff(PA, PB) IN
                      IF k = 0 THEN M[A][B] = 0 ELSE M[A][B] = CmpAt(PA, PB, k)
NothingAfterMatters ==
    P2 => LET k == FirstDiff(PA, PB) IN
          (k > 0 /\ k <= Len(PA) /\ k <= Len(PB)) =>
          \A c \in Continuations[A] : \A d \in Continuations[B] : M[c][d] = M[A][B]
Numeric(t) == NumericOnly(t)
ByValue == P2 => LawC05Pair(Texts[A], Texts[B], M[A][B])
(* C06: dev < other tags < nothing = 0 < post < numbers, by case-insensitive order *)
TagRank(x) == IF x[1] = "T" THEN (IF HasPost(x[2]) THEN 3 ELSE IF HasDev(x[2]) THEN 0 ELSE 1)
              ELSE IF x[1] = "A" \/ x = <<"I", <<>>>> THEN 2 ELSE IF x[1] = "I" THEN 4 ELSE 9
Tags == P2 => LET k == FirstDiff(PA, PB) IN
              k > 0 => LET x == PartAt(PA, k) y == PartAt(PB, k) rx == TagRank(x) ry == TagRank(y) IN
                       (x[1] = "T" \/ y[1] = "T") /\ rx # 9 /\ ry # 9 =>
                       M[A][B] = (IF rx # ry THEN SignOf(rx - ry) ELSE CmpSeq(Fold(x[2]), Fold(y[2])))
CaseAside == P2 => (Fold(Texts[A]) = Fold(Texts[B]) /\ ~Has(Texts[A], Plus) => M[A][B] = 0)
(* C07: a text with an epoch is above one without; epochs decide first *)
EpochOfParts(p) == IF p[1][1] = "E" THEN p[1][2][1] ELSE -99999
EpochFirst == P2 => (EpochOfParts(PA) # EpochOfParts(PB) => M[A][B] = SignOf(EpochOfParts(PA) - EpochOfParts(PB)))
IsLocalOf(p, q) == Len(p) = Len(q) + 1 /\ p[Len(p)][1] = "L" /\ IsPrefix(q, p)
LocalAbove == P2 => (IsLocalOf(PA, PB) => M[A][B] = 1)
LocalBelowNext == P2 => ((Len(PA) = Len(PB) /\ PA[Len(PA)][1] = "L" /\ PB[Len(PB)][1] = "I" /\ PB[Len(PB)][2] # <<>>
                          /\ Front(PA) = Front(PB)) => M[A][B] = -1)
(* C10: starting with is reflexive and transitive; mutual only between equal lengths; *)
(* equal versions of equal length start with each other                               *)
SwReflexive == P1 => S[A][A]
SwTransitive == P2 => (S[A][B] => \A c \in Ix : S[B][c] => S[A][c])
SwMutual == P2 => ((S[A][B] /\ S[B][A]) = (Len(PA) = Len(PB) /\ M[A][B] = 0))
SwCuts == P2 => (S[A][B] = (Len(PB) <= Len(PA) /\ Cmp(SubSeq(PA, 1, Len(PB)), PB) = 0))
SwExtends == P2 => (S[A][B] => \A c \in Ix : IsPrefix(PA, Parts[c]) => S[c][B])

(* ---- pools ------------------------------------------------------------------ *)
Blocks == (Size + Block - 1) \div Block
Members(n) == { i \in Ix : (i - 1) \div Block = n - 1 }
Pool(m, n) == SetToSortSeq(Members(m) \cup Members(n), LAMBDA x, y : x < y)
TextsOf(p) == [i \in DOMAIN p |-> Texts[p[i]]]
PartsOf(p) == [i \in DOMAIN p |-> Parts[p[i]]]
(* printed once, from the initial state: every pair of versions lies in a pool *)
Emitted == (Emit /\ picked = <<>>) =>
           /\ \A m \in 1 .. Blocks : \A n \in m .. Blocks :
                (n > m \/ Blocks = 1) => LET p == Pool(m, n) IN
                PrintT(ToJson([pool |-> TextsOf(p), parts |-> PartsOf(p)]))
====
