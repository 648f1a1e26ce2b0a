---- MODULE Expr ----
(***************************************************************************)
(* Boolean expressions over terms: tokens, grammar, canonical tree,        *)
(* meaning and rendering.                                                  *)
(***************************************************************************)
EXTENDS Text

LP == 40  RP == 41  Bar == 124  Comma == 44  HatC == 94  DollarC == 36
Special == {LP, RP, Bar, Comma}
CombTok == { <<LP>>, <<RP>>, <<Bar>>, <<Comma>> }

(***************************************************************************)
(* Tokens. At each place: '^' up to the next '$' is one token if there is  *)
(* one; otherwise a parenthesis or combinator; otherwise everything up to  *)
(* the next parenthesis or combinator. Surrounding white space is dropped. *)
(***************************************************************************)
RECURSIVE SkipWs(_, _), NextIn(_, _, _)
SkipWs(t, p) == IF p <= Len(t) /\ IsSpace(t[p]) THEN SkipWs(t, p + 1) ELSE p
NextIn(t, p, S) == IF p > Len(t) \/ t[p] \in S THEN p ELSE NextIn(t, p + 1, S)
RECURSIVE TokensFrom(_, _, _)
TokensFrom(t, p, acc) ==
    LET q == SkipWs(t, p) IN
    IF q > Len(t) THEN (IF p > Len(t) THEN acc ELSE acc)
    ELSE LET d == IF t[q] = HatC THEN NextIn(t, q, {DollarC}) ELSE Len(t) + 1
             e == IF d <= Len(t) THEN d
                  ELSE IF t[q] \in Special THEN q
                  ELSE NextIn(t, q, Special) - 1
         IN TokensFrom(t, e + 1, Append(acc, Trim(SubSeq(t, q, e))))
Tokens(t) == TokensFrom(t, 1, <<>>)
(* As the reader sees the text: enclosed in parentheses. (A '^' without a  *)
(* following '$' ends at the closing one.)                                 *)
Enclosed(t) == <<LP>> \o t \o <<RP>>

IsTermTok(k) == k \notin CombTok

(***************************************************************************)
(* Grammar.   Or := And { '|' And }   And := Prim { ',' Prim }             *)
(*            Prim := term | '(' Or ')'                                    *)
(* A node is [k |-> "t", t |-> text] or [k |-> "n", c |-> "And"/"Or", p].   *)
(***************************************************************************)
Leaf(t) == [k |-> "t", t |-> t]
Node(c, p) == [k |-> "n", c |-> c, p |-> p]
Bad == [ok |-> FALSE, n |-> Leaf(<<>>), i |-> 0]
(* join with fusing of the same combinator *)
Parts(c, n) == IF n.k = "n" /\ n.c = c THEN n.p ELSE <<n>>
Join2(c, a, b) == Node(c, Parts(c, a) \o Parts(c, b))

RECURSIVE POr(_, _), PAnd(_, _), PPrim(_, _), POrRest(_, _), PAndRest(_, _)
PPrim(k, i) ==
    IF i > Len(k) THEN Bad
    ELSE IF IsTermTok(k[i]) THEN [ok |-> TRUE, n |-> Leaf(k[i]), i |-> i + 1]
    ELSE IF k[i] = <<LP>> THEN
        LET r == POr(k, i + 1) IN
        IF r.ok /\ r.i <= Len(k) /\ k[r.i] = <<RP>> THEN [r EXCEPT !.i = @ + 1] ELSE Bad
    ELSE Bad
PAndRest(k, l) ==
    IF l.ok /\ l.i <= Len(k) /\ k[l.i] = <<Comma>> THEN
        LET r == PPrim(k, l.i + 1) IN
        IF r.ok THEN PAndRest(k, [ok |-> TRUE, n |-> Join2("And", l.n, r.n), i |-> r.i]) ELSE Bad
    ELSE l
PAnd(k, i) == PAndRest(k, PPrim(k, i))
POrRest(k, l) ==
    IF l.ok /\ l.i <= Len(k) /\ k[l.i] = <<Bar>> THEN
        LET r == PAnd(k, l.i + 1) IN
        IF r.ok THEN POrRest(k, [ok |-> TRUE, n |-> Join2("Or", l.n, r.n), i |-> r.i]) ELSE Bad
    ELSE l
POr(k, i) == POrRest(k, PAnd(k, i))

ParseToks(k) == LET r == PPrim(k, 1) IN IF r.ok /\ r.i = Len(k) + 1 THEN r ELSE Bad
ParseExpr(t) == ParseToks(Tokens(Enclosed(t)))

(* The tree of an accepted expression: one term stands alone, without combinator. *)
TreeOf(n) == IF n.k = "t" THEN Node("None", <<n>>) ELSE n

TermsOf(toks) == SelectSeq(toks, IsTermTok)

RECURSIVE Leaves(_)
Leaves(n) == IF n.k = "t" THEN <<n.t>>
             ELSE FoldLeft(LAMBDA acc, x : acc \o Leaves(x), <<>>, n.p)

(* Canonical: no group directly in a group with the same combinator, at    *)
(* least two parts in every group, a single term alone.                    *)
RECURSIVE CanonGroup(_)
CanonGroup(n) == n.k = "t" \/
                 (/\ n.c \in {"And", "Or"} /\ Len(n.p) >= 2
                  /\ \A i \in 1 .. Len(n.p) :
                        /\ n.p[i].k = "n" => n.p[i].c # n.c
                        /\ CanonGroup(n.p[i]))
Canonical(n) == n.k = "n" /\ (IF n.c = "None" THEN Len(n.p) = 1 /\ n.p[1].k = "t" ELSE CanonGroup(n))

(***************************************************************************)
(* Meaning. val(i) is the answer of the i-th term; the value carries how   *)
(* many terms were passed so that equal terms need not have equal answers. *)
(***************************************************************************)
RECURSIVE EvalN(_, _, _)
EvalN(n, val, at) ==
    IF n.k = "t" THEN [v |-> val[at], at |-> at + 1]
    ELSE LET r == FoldLeft(LAMBDA acc, x : LET y == EvalN(x, val, acc.at)
                                           IN [v |-> IF n.c = "And" THEN acc.v /\ y.v ELSE acc.v \/ y.v,
                                               at |-> y.at],
                           [v |-> n.c = "And", at |-> at], n.p)
         IN r
Eval(n, val) == EvalN(n, val, 1).v

(***************************************************************************)
(* Rendering.                                                              *)
(***************************************************************************)
RECURSIVE RenderN(_)
RenderN(n) ==
    IF n.k = "t" THEN n.t
    ELSE LET sep == IF n.c = "And" THEN <<Comma>> ELSE <<Bar>>
             one(x) == IF x.k = "t" THEN x.t ELSE <<LP>> \o RenderN(x) \o <<RP>>
         IN FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE sep) \o one(n.p[i]),
                     <<>>, [i \in 1 .. Len(n.p) |-> i])
Render(n) == RenderN(n)
====
