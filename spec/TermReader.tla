---- MODULE TermReader ----
(***************************************************************************)
(* Reading one constraint term, one character at a time, and the laws that  *)
(* relate what different terms match.                                       *)
(***************************************************************************)
EXTENDS Term, TLC, Json

CONSTANTS Alphabet, N, Emit
VARIABLES txt, st
vars == <<txt, st>>

(* head: what the first character says; op, rest: operator and what follows  *)
(* it; body: the text up to the last character that is not '*'; stars: the   *)
(* '*' after it; inner: a '*' inside the body                                *)
Start == [head |-> "none", op |-> <<>>, rest |-> <<>>, bad |-> FALSE, body |-> <<>>, stars |-> 0,
          inner |-> FALSE, at |-> FALSE, dollar |-> FALSE]
OpPart(s, c) ==
    IF s.head # "op" THEN s
    ELSE IF s.rest = <<>> /\ Len(s.op) = 1 /\ c = Eqs THEN [s EXCEPT !.op = Append(@, c)]
    ELSE [s EXCEPT !.rest = Append(@, c), !.bad = @ \/ IsSpace(c) \/ (s.rest = <<>> /\ c \in OpChars)]
First(s, c) ==
    IF s.head # "none" THEN OpPart(s, c)
    ELSE IF c = Caret THEN [s EXCEPT !.head = "caret"]
    ELSE IF c \in OpChars THEN [s EXCEPT !.head = "op", !.op = <<c>>]
    ELSE [s EXCEPT !.head = "plain"]
StarPart(s, c) ==
    IF c = Star THEN [s EXCEPT !.stars = @ + 1]
    ELSE [s EXCEPT !.body = @ \o [i \in 1 .. s.stars |-> Star] \o <<c>>, !.stars = 0, !.inner = @ \/ s.stars > 0]
Char(s, c) == [StarPart(First(s, c), c) EXCEPT !.at = @ \/ c = AtSign, !.dollar = (c = Dollar)]

Init == txt = <<>> /\ st = Start
Read(c) == Len(txt) < N /\ txt' = Append(txt, c) /\ st' = Char(st, c)
Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

Result ==
    IF st.head = "caret" \/ st.dollar
    THEN IF st.head = "caret" /\ st.dollar THEN [k |-> "regex", exact |-> FALSE] ELSE TermErr
    ELSE IF st.head = "op" THEN
        LET dots == EndsWithText(st.rest, <<Dot, Star>>)
            v == IF dots THEN SubSeq(st.rest, 1, Len(st.rest) - 2) ELSE st.rest
            two == Len(st.op) = 2
            o == st.op[1]
        IN IF st.bad \/ st.rest = <<>> \/ ~Accepted(v) THEN TermErr
           ELSE CASE o = 61 -> IF two THEN Rel("Eq", v, TRUE) ELSE Pre(FALSE, v)
                  [] o = 60 -> Rel(IF two THEN "Le" ELSE "Lt", v, FALSE)
                  [] o = 62 -> Rel(IF two THEN "Ge" ELSE "Gt", v, FALSE)
                  [] o = 33 -> IF ~two THEN TermErr ELSE IF dots THEN Pre(TRUE, v) ELSE Rel("Ne", v, FALSE)
                  [] o = 126 -> IF ~two \/ dots THEN TermErr ELSE [k |-> "compat", v |-> v, exact |-> FALSE]
    ELSE IF st.body = <<>> /\ st.stars = 1 THEN [k |-> "always", exact |-> FALSE]
    ELSE IF st.inner THEN [k |-> "glob", exact |-> FALSE]
    ELSE IF st.stars > 0 THEN Pre(FALSE, TrimEnd(st.body, {Dot}))
    ELSE IF st.at THEN [k |-> "text", exact |-> TRUE]
    ELSE Rel("Eq", st.body, TRUE)
Agrees == Result = TermOf(txt)

(* ---- what terms say about each other ----------------------------------------- *)
Cands == { <<>>, <<49>>, <<49, 46, 48>>, <<49, 46, 49>>, <<49, 49>>, <<49, 97>>, <<49, 46, 97>>, <<97>>, <<50>>, <<48>>,
           <<49, 43, 97>>, <<49, 33, 49>>, <<49, 46>>, <<49, 46, 49, 46, 49>> }
(* texts that are plain versions, and nothing else as a term *)
PlainVersion(v) == /\ v # <<>> /\ Accepted(v) /\ v[1] \notin OpChars \cup {Caret}
                   /\ ~Has(v, Star) /\ ~Has(v, AtSign) /\ ~Has(v, Dollar)
                   /\ \A i \in 1 .. Len(v) : ~IsSpace(v[i])
Op(o, v) == o \o v
DotStar == <<Dot, Star>>
OnCands(P(_)) == \A c \in Cands : P(c)
Bounds == PlainVersion(txt) => OnCands(LAMBDA c :
    LET v == txt m(o) == TermMatch(Op(o, v), c) IN
    /\ Cardinality({o \in {<<60>>, <<62>>, <<61, 61>>} : m(o)}) = 1
    /\ m(<<60, 61>>) = (m(<<60>>) \/ m(<<61, 61>>)) /\ m(<<62, 61>>) = (m(<<62>>) \/ m(<<61, 61>>))
    /\ m(<<33, 61>>) = ~m(<<61, 61>>)
    /\ TermMatch(v, c) = m(<<61, 61>>)
    /\ m(<<60>>) = ~m(<<62, 61>>) /\ m(<<62>>) = ~m(<<60, 61>>))
Wildcards == (PlainVersion(txt) /\ txt[Len(txt)] # Dot) => OnCands(LAMBDA c :
    LET v == txt m == TermMatch(v \o <<Star>>, c) IN
    /\ TermMatch(v \o DotStar, c) = m
    /\ TermMatch(Op(<<61>>, v), c) = m /\ TermMatch(Op(<<61>>, v \o DotStar), c) = m
    /\ TermMatch(Op(<<33, 61>>, v \o DotStar), c) = ~m
    /\ TermMatch(Op(<<61, 61>>, v), c) /\ Len(Parse(c).parts) >= Len(Parse(v).parts) => m)
(* '.*' behind a bound is not a wildcard *)
BoundsIgnoreStar == PlainVersion(txt) => OnCands(LAMBDA c :
    \A o \in {<<60>>, <<60, 61>>, <<62>>, <<62, 61>>, <<61, 61>>} : TermMatch(Op(o, txt \o DotStar), c) = TermMatch(Op(o, txt), c))
(* a glob made from a text by hiding a part of it matches that text *)
Hides == (txt # <<>> /\ ~Has(txt, Star) /\ ~Has(txt, Dollar) /\ txt[1] \notin OpChars \cup {Caret}) =>
         \A i \in 0 .. Len(txt) - 1 : \A j \in i .. Len(txt) - 1 :
            GlobMatch(SubSeq(txt, 1, i) \o <<Star>> \o SubSeq(txt, j + 1, Len(txt)), txt)
(* every term is read one way, exact ones are those for one version *)
Exactness == LET r == TermOf(txt) IN r.k # "err" =>
             (r.exact = (r.k = "text" \/ (r.k = "rel" /\ r.op = "Eq")))
Emitted == Emit => LET r == TermOf(txt) IN
           PrintT(ToJson([t |-> txt, k |-> r.k, v |-> IF r.k \in {"rel", "pre"} THEN r.v ELSE <<>>]))
====
