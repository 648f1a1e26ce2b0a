---- MODULE Show ----
(***************************************************************************)
(* How terms and trees are shown.                                           *)
(***************************************************************************)
EXTENDS ShowVersion, Expr

Amp == 38
(* Trees of any shape: those that can be written as an expression are shown as  *)
(* that, the others as their combinator and the list of their parts.            *)
SignText(c) == CASE c = "And" -> <<Amp>> [] c = "Or" -> <<Bar>> [] OTHER -> <<>>
RECURSIVE Writable(_), Written(_, _), NodeText(_), TallNodeText(_)
Writable(n) == n.k = "t" \/ (IF Len(n.p) = 1 THEN n.p[1].k = "t"
                             ELSE Len(n.p) > 1 /\ \A i \in 1 .. Len(n.p) : Writable(n.p[i]))
Written(n, nested) ==
    IF n.k = "t" THEN n.t
    ELSE IF Len(n.p) = 1 THEN n.p[1].t
    ELSE LET s == FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE IF n.c = "And" THEN <<Comma>> ELSE <<Bar>>) \o Written(n.p[i], TRUE),
                           <<>>, [i \in 1 .. Len(n.p) |-> i])
         IN IF nested THEN <<LP>> \o s \o <<RP>> ELSE s
NodeText(n) == IF Writable(n) THEN Quoted(Written(n, FALSE)) ELSE SignText(n.c) \o ListText(Map(NodeText, n.p))
TallNodeText(n) == IF n.k = "t" THEN Quoted(n.t) ELSE SignText(n.c) \o TallText(Map(TallNodeText, n.p))
====
