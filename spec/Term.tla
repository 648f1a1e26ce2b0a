---- MODULE Term ----
(***************************************************************************)
(* How one constraint term is read, and what it matches.                   *)
(***************************************************************************)
EXTENDS Version

Caret == 94  Dollar == 36  Star == 42  AtSign == 64  Eqs == 61
OpChars == {60, 62, 61, 33, 126}              \* < > = ! ~

TermErr == [k |-> "err"]
Rel(op, v, ex) == IF Accepted(v) THEN [k |-> "rel", op |-> op, v |-> v, exact |-> ex] ELSE TermErr
Pre(neg, v) == IF Accepted(v) THEN [k |-> "pre", neg |-> neg, v |-> v, exact |-> FALSE] ELSE TermErr

(* OP version: one operator, directly followed by the version *)
OpTerm(t) ==
    LET two == Len(t) >= 2 /\ t[2] = Eqs
        o   == SubSeq(t, 1, IF two THEN 2 ELSE 1)
        r   == SubSeq(t, Len(o) + 1, Len(t))
        st  == EndsWithText(r, <<Dot, Star>>)
        v   == IF st THEN SubSeq(r, 1, Len(r) - 2) ELSE r
    IN IF r = <<>> \/ r[1] \in OpChars \/ \E i \in 1 .. Len(r) : IsSpace(r[i]) THEN TermErr
       ELSE CASE o = <<61, 61>> -> Rel("Eq", v, TRUE)
              [] o = <<33, 61>> -> IF st THEN Pre(TRUE, v) ELSE Rel("Ne", v, FALSE)
              [] o = <<60>>     -> Rel("Lt", v, FALSE)
              [] o = <<60, 61>> -> Rel("Le", v, FALSE)
              [] o = <<62>>     -> Rel("Gt", v, FALSE)
              [] o = <<62, 61>> -> Rel("Ge", v, FALSE)
              [] o = <<61>>     -> Pre(FALSE, v)
              [] o = <<126, 61>> -> IF st \/ ~Accepted(v) THEN TermErr
                                    ELSE [k |-> "compat", v |-> v, exact |-> FALSE]
              [] OTHER -> TermErr               \* bare '!' or '~'

TermOf(t) ==
    IF t # <<>> /\ (t[1] = Caret \/ t[Len(t)] = Dollar) THEN
        IF t[1] = Caret /\ t[Len(t)] = Dollar THEN [k |-> "regex", exact |-> FALSE] ELSE TermErr
    ELSE IF t # <<>> /\ t[1] \in OpChars THEN OpTerm(t)
    ELSE IF t = <<Star>> THEN [k |-> "always", exact |-> FALSE]
    ELSE IF Has(TrimEnd(t, {Star}), Star) THEN [k |-> "glob", exact |-> FALSE]
    ELSE IF t # <<>> /\ t[Len(t)] = Star THEN Pre(FALSE, TrimEnd(t, {Star, Dot}))
    ELSE IF Has(t, AtSign) THEN [k |-> "text", exact |-> TRUE]
    ELSE Rel("Eq", t, TRUE)

(***************************************************************************)
(* Globs: '*' is any run of characters except line breaks, all other       *)
(* characters stand for themselves (for globs without other regex syntax). *)
(***************************************************************************)
Newline == 10
RegexSpecial == {92, 40, 41, 91, 93, 123, 125, 124, 63, 94, 36}
GlobPlain(t) == \A i \in 1 .. Len(t) : t[i] \notin RegexSpecial
(* set of positions of text c reachable after matching the glob g *)
GlobEnds(g, c) ==
    FoldLeft(LAMBDA S, x :
               IF x = Star
               THEN {j \in 0 .. Len(c) : \E i \in S : i <= j /\ \A k \in (i + 1) .. j : c[k] # Newline}
               ELSE {i + 1 : i \in {j \in S : j < Len(c) /\ c[j + 1] = x}},
             {0}, g)
GlobMatch(g, c) == Len(c) \in GlobEnds(g, c)

(* Model-level meaning of a term without regular expression, for a version text c. *)
TermMatch(t, c) ==
    LET m == TermOf(t) p == Parse(c).parts IN
    CASE m.k = "always" -> TRUE
      [] m.k = "rel" -> RelHolds(m.op, Cmp(p, Parse(m.v).parts))
      [] m.k = "pre" -> StartsWith(p, Parse(m.v).parts) # m.neg
      [] m.k = "text" -> t = c
      [] m.k = "glob" -> GlobMatch(t, c)
====
