---- MODULE OrderProof ----
(***************************************************************************)
(* Machine-checked (TLAPS): the laws of the version order for versions of   *)
(* any length. Components are abstract: all that is used of them is that    *)
(* their own order is a total preorder (checked on Version!CmpPart by       *)
(* ComponentOrder.tla). A version is its sequence of components, continued  *)
(* with the absent one; the loop of the code is a step machine over it.     *)
(***************************************************************************)
EXTENDS Integers, NaturalsInduction, TLAPS

CONSTANTS K,             \* components, the absent one included
          C(_, _)        \* their three-way comparison
ASSUME CType == \A x, y \in K : C(x, y) \in {-1, 0, 1}
ASSUME CRefl == \A x \in K : C(x, x) = 0
ASSUME CAnti == \A x, y \in K : C(y, x) = -C(x, y)
ASSUME CTrans == \A x, y, z \in K : C(x, y) <= 0 /\ C(y, z) <= 0 => C(x, z) <= 0

V == [Nat -> K]
Before(f, g, i) == \A j \in Nat : j < i => C(f[j], g[j]) = 0
Less(f, g) == \E i \in Nat : C(f[i], g[i]) = -1 /\ Before(f, g, i)
Same(f, g) == \A i \in Nat : C(f[i], g[i]) = 0

LEMMA EqCongr == \A x, y, z \in K : C(x, y) = 0 => C(x, z) = C(y, z) /\ C(z, x) = C(z, y)
<1> SUFFICES ASSUME NEW x \in K, NEW y \in K, NEW z \in K, C(x, y) = 0
             PROVE C(x, z) = C(y, z) /\ C(z, x) = C(z, y)
    OBVIOUS
<1>1. C(y, x) = 0 BY CAnti, CType
<1>2. C(x, z) \in {-1, 0, 1} /\ C(y, z) \in {-1, 0, 1} BY CType
<1>3. C(x, z) <= 0 <=> C(y, z) <= 0 BY <1>1, CTrans
<1>4. C(z, x) <= 0 <=> C(z, y) <= 0 BY <1>1, CTrans
<1>5. C(z, x) = -C(x, z) /\ C(z, y) = -C(y, z) BY CAnti
<1> QED BY <1>2, <1>3, <1>4, <1>5

LEMMA LtTrans == \A x, y, z \in K : C(x, y) = -1 /\ C(y, z) <= 0 => C(x, z) = -1
<1> SUFFICES ASSUME NEW x \in K, NEW y \in K, NEW z \in K, C(x, y) = -1, C(y, z) <= 0
             PROVE C(x, z) = -1
    OBVIOUS
<1>1. C(x, z) <= 0 BY CTrans, CType
<1>2. CASE C(x, z) = 0
  <2>1. C(z, x) <= 0 BY <1>2, CAnti, CType
  <2>2. C(y, x) <= 0 BY <2>1, CTrans
  <2>3. C(y, x) = 1 BY CAnti, CType
  <2> QED BY <2>2, <2>3
<1> QED BY <1>1, <1>2, CType

LEMMA FirstDifference ==
    \A f, g \in V : ~Same(f, g) => \E i \in Nat : C(f[i], g[i]) # 0 /\ Before(f, g, i)
<1> SUFFICES ASSUME NEW f \in V, NEW g \in V, ~Same(f, g)
             PROVE \E i \in Nat : C(f[i], g[i]) # 0 /\ Before(f, g, i)
    OBVIOUS
<1> DEFINE P(n) == C(f[n], g[n]) # 0
<1>1. \E n \in Nat : P(n) BY DEF Same
<1>2. \E m \in Nat : P(m) /\ \A k \in 0 .. m-1 : ~P(k)
  <2> HIDE DEF P
  <2> QED BY <1>1, SmallestNatural, IsaM("blast")
<1> QED BY <1>2 DEF Before

THEOREM Trichotomy ==
    \A f, g \in V : /\ Less(f, g) \/ Same(f, g) \/ Less(g, f)
                    /\ ~(Less(f, g) /\ Same(f, g))
                    /\ ~(Less(g, f) /\ Same(f, g))
                    /\ ~(Less(f, g) /\ Less(g, f))
<1> SUFFICES ASSUME NEW f \in V, NEW g \in V
             PROVE /\ Less(f, g) \/ Same(f, g) \/ Less(g, f)
                   /\ ~(Less(f, g) /\ Same(f, g))
                   /\ ~(Less(g, f) /\ Same(f, g))
                   /\ ~(Less(f, g) /\ Less(g, f))
    OBVIOUS
<1>0. \A i \in Nat : f[i] \in K /\ g[i] \in K BY DEF V
<1>a. \A i \in Nat : C(f[i], g[i]) \in {-1, 0, 1} /\ C(g[i], f[i]) = -C(f[i], g[i]) BY <1>0, CType, CAnti
<1>1. Less(f, g) \/ Same(f, g) \/ Less(g, f)
  <2> SUFFICES ASSUME ~Same(f, g) PROVE Less(f, g) \/ Less(g, f) OBVIOUS
  <2>1. PICK i \in Nat : C(f[i], g[i]) # 0 /\ Before(f, g, i) BY FirstDifference
  <2>2. C(f[i], g[i]) = -1 => Less(f, g) BY <2>1 DEF Less
  <2>3. C(f[i], g[i]) = 1 => Less(g, f) BY <2>1, <1>a DEF Less, Before
  <2> QED BY <2>1, <2>2, <2>3, <1>a
<1>2. ~(Less(f, g) /\ Same(f, g)) BY DEF Less, Same
<1>3. ~(Less(g, f) /\ Same(f, g)) BY <1>a DEF Less, Same
<1>4. ~(Less(f, g) /\ Less(g, f))
  <2> SUFFICES ASSUME Less(f, g), Less(g, f) PROVE FALSE OBVIOUS
  <2>1. PICK i \in Nat : C(f[i], g[i]) = -1 /\ Before(f, g, i) BY DEF Less
  <2>2. PICK j \in Nat : C(g[j], f[j]) = -1 /\ Before(g, f, j) BY DEF Less
  <2>3. ~(i < j) BY <2>1, <2>2, <1>a DEF Before
  <2>4. ~(j < i) BY <2>1, <2>2, <1>a DEF Before
  <2>5. i # j BY <2>1, <2>2, <1>a
  <2> QED BY <2>3, <2>4, <2>5
<1> QED BY <1>1, <1>2, <1>3, <1>4

THEOREM SameSymmetric == \A f, g \in V : Same(f, g) => Same(g, f)
BY CAnti, CType DEF V, Same
THEOREM SameTransitive == \A f, g, h \in V : Same(f, g) /\ Same(g, h) => Same(f, h)
BY EqCongr DEF V, Same

(* what compares equal compares alike with everything else *)
THEOREM SameAlike ==
    \A f, g, h \in V : Same(f, g) => (Less(f, h) <=> Less(g, h)) /\ (Less(h, f) <=> Less(h, g))
<1> SUFFICES ASSUME NEW f \in V, NEW g \in V, NEW h \in V, Same(f, g)
             PROVE (Less(f, h) <=> Less(g, h)) /\ (Less(h, f) <=> Less(h, g))
    OBVIOUS
<1>1. \A i \in Nat : C(f[i], h[i]) = C(g[i], h[i]) /\ C(h[i], f[i]) = C(h[i], g[i])
    BY EqCongr DEF V, Same
<1> QED BY <1>1 DEF Less, Before

THEOREM LessTransitive ==
    \A f, g, h \in V : Less(f, g) /\ Less(g, h) => Less(f, h)
<1> SUFFICES ASSUME NEW f \in V, NEW g \in V, NEW h \in V, Less(f, g), Less(g, h)
             PROVE Less(f, h)
    OBVIOUS
<1>0. \A i \in Nat : f[i] \in K /\ g[i] \in K /\ h[i] \in K BY DEF V
<1>1. PICK i \in Nat : C(f[i], g[i]) = -1 /\ Before(f, g, i) BY DEF Less
<1>2. PICK j \in Nat : C(g[j], h[j]) = -1 /\ Before(g, h, j) BY DEF Less
<1>3. CASE i < j
  <2>1. C(g[i], h[i]) = 0 BY <1>2, <1>3 DEF Before
  <2>2. C(f[i], h[i]) = -1 BY <1>1, <2>1, <1>0, LtTrans
  <2>3. Before(f, h, i)
    <3> SUFFICES ASSUME NEW k \in Nat, k < i PROVE C(f[k], h[k]) = 0 BY DEF Before
    <3>1. C(f[k], g[k]) = 0 BY <1>1 DEF Before
    <3>2. C(g[k], h[k]) = 0 BY <1>2, <1>3 DEF Before
    <3> QED BY <3>1, <3>2, <1>0, EqCongr
  <2> QED BY <2>2, <2>3 DEF Less
<1>4. CASE j < i
  <2>1. C(f[j], g[j]) = 0 BY <1>1, <1>4 DEF Before
  <2>2. C(f[j], h[j]) = -1 BY <1>2, <2>1, <1>0, EqCongr
  <2>3. Before(f, h, j)
    <3> SUFFICES ASSUME NEW k \in Nat, k < j PROVE C(f[k], h[k]) = 0 BY DEF Before
    <3>1. C(f[k], g[k]) = 0 BY <1>1, <1>4 DEF Before
    <3>2. C(g[k], h[k]) = 0 BY <1>2 DEF Before
    <3> QED BY <3>1, <3>2, <1>0, EqCongr
  <2> QED BY <2>2, <2>3 DEF Less
<1>5. CASE i = j
  <2>1. C(f[i], h[i]) = -1 BY <1>1, <1>2, <1>5, <1>0, LtTrans
  <2>3. Before(f, h, i)
    <3> SUFFICES ASSUME NEW k \in Nat, k < i PROVE C(f[k], h[k]) = 0 BY DEF Before
    <3>1. C(f[k], g[k]) = 0 BY <1>1 DEF Before
    <3>2. C(g[k], h[k]) = 0 BY <1>2, <1>5 DEF Before
    <3> QED BY <3>1, <3>2, <1>0, EqCongr
  <2> QED BY <2>1, <2>3 DEF Less
<1> QED BY <1>3, <1>4, <1>5

(* C05: what follows the first difference has no influence *)
THEOREM NothingAfterMatters ==
    \A f, g, f2, g2 \in V, i \in Nat :
        /\ C(f[i], g[i]) = -1 /\ Before(f, g, i)
        /\ \A j \in Nat : j <= i => f2[j] = f[j] /\ g2[j] = g[j]
        => Less(f2, g2)
<1> SUFFICES ASSUME NEW f \in V, NEW g \in V, NEW f2 \in V, NEW g2 \in V, NEW i \in Nat,
                    C(f[i], g[i]) = -1, Before(f, g, i),
                    \A j \in Nat : j <= i => f2[j] = f[j] /\ g2[j] = g[j]
             PROVE Less(f2, g2)
    OBVIOUS
<1>1. C(f2[i], g2[i]) = -1 OBVIOUS
<1>2. Before(f2, g2, i) BY DEF Before
<1> QED BY <1>1, <1>2 DEF Less

(* C10: prefixes; n and m are the numbers of components *)
Sw(f, n, g, m) == m <= n /\ Before(f, g, m)
THEOREM SwReflexive == \A f \in V, n \in Nat : Sw(f, n, f, n)
BY CRefl DEF V, Sw, Before
THEOREM SwTransitive ==
    \A f, g, h \in V, n, m, k \in Nat : Sw(f, n, g, m) /\ Sw(g, m, h, k) => Sw(f, n, h, k)
<1> SUFFICES ASSUME NEW f \in V, NEW g \in V, NEW h \in V, NEW n \in Nat, NEW m \in Nat, NEW k \in Nat,
                    Sw(f, n, g, m), Sw(g, m, h, k)
             PROVE Sw(f, n, h, k)
    OBVIOUS
<1>1. k <= n BY DEF Sw
<1>2. SUFFICES ASSUME NEW j \in Nat, j < k PROVE C(f[j], h[j]) = 0 BY <1>1 DEF Sw, Before
<1>3. C(f[j], g[j]) = 0 BY <1>2 DEF Sw, Before
<1>4. C(g[j], h[j]) = 0 BY <1>2 DEF Sw, Before
<1> QED BY <1>3, <1>4, EqCongr DEF V

(***************************************************************************)
(* The loop: one position per step, until both versions are used up.       *)
(***************************************************************************)
CONSTANTS F, G, N        \* the versions compared, the length of the longer one
ASSUME FG == F \in V /\ G \in V /\ N \in Nat
ASSUME UsedUp == \A i \in Nat : i >= N => C(F[i], G[i]) = 0

VARIABLES i, out         \* out = 2: not decided
vars == <<i, out>>
Init == i = 0 /\ out = 2
Step == /\ out = 2
        /\ IF i = N THEN out' = 0 /\ i' = i
           ELSE IF C(F[i], G[i]) # 0 THEN out' = C(F[i], G[i]) /\ i' = i
           ELSE i' = i + 1 /\ out' = out
Spec == Init /\ [][Step]_vars

Inv == /\ i \in Nat /\ i <= N /\ out \in {-1, 0, 1, 2}
       /\ Before(F, G, i)
       /\ out = 0 => Same(F, G)
       /\ out = -1 => Less(F, G)
       /\ out = 1 => Less(G, F)
LEMMA InvInit == Init => Inv BY FG DEF Init, Inv, Before
LEMMA InvNext == Inv /\ [Step]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Step]_vars PROVE Inv' OBVIOUS
<1> USE FG
<1>f. \A k \in Nat : F[k] \in K /\ G[k] \in K BY DEF V
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars, Inv, Before, Same, Less
<1>2. CASE Step /\ i = N
  <2>1. Same(F, G)
    <3> SUFFICES ASSUME NEW k \in Nat PROVE C(F[k], G[k]) = 0 BY DEF Same
    <3> QED BY <1>2, UsedUp DEF Inv, Before
  <2> QED BY <1>2, <2>1 DEF Step, Inv, Before
<1>3. CASE Step /\ i # N /\ C(F[i], G[i]) # 0
  <2>0. i \in Nat /\ i' = i /\ out' = C(F[i], G[i]) BY <1>3 DEF Step, Inv
  <2>1. C(F[i], G[i]) \in {-1, 1} BY <1>3, <1>f, <2>0, CType
  <2>2. C(F[i], G[i]) = -1 => Less(F, G) BY <2>0 DEF Inv, Less
  <2>3. C(F[i], G[i]) = 1 => Less(G, F)
    <3> SUFFICES ASSUME C(F[i], G[i]) = 1 PROVE Less(G, F) OBVIOUS
    <3>1. C(G[i], F[i]) = -1 BY <2>0, <1>f, CAnti
    <3>2. Before(G, F, i) BY <1>f, CAnti, <2>0 DEF Inv, Before
    <3> QED BY <3>1, <3>2, <2>0 DEF Less
  <2> QED BY <2>0, <2>1, <2>2, <2>3 DEF Inv, Before
<1>4. CASE Step /\ i # N /\ C(F[i], G[i]) = 0
  <2>0. i \in Nat /\ i' = i + 1 /\ out' = out /\ out = 2 /\ i < N BY <1>4 DEF Step, Inv
  <2>1. Before(F, G, i + 1) BY <1>4, <2>0 DEF Inv, Before
  <2> QED BY <2>0, <2>1 DEF Inv, Before
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Step
THEOREM Correct == Spec => []Inv
BY InvInit, InvNext, PTL DEF Spec
====
