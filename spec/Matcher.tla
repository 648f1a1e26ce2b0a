---- MODULE Matcher ----
(***************************************************************************)
(* Matching a regular expression '^...$' or a glob against a text read one  *)
(* character at a time: the state is what is still to be matched (the       *)
(* derivative of the expression). Checked against the set semantics of      *)
(* module Regex and against GlobMatch.                                      *)
(***************************************************************************)
EXTENDS Term, Regex, TLC, Json

CONSTANTS Alphabet, N, Globs, Depth, Emit

Atoms == { <<"lit", 97>>, <<"lit", 46>>, <<"any">>, <<"dig">>, <<"cls", FALSE, <<<<49, 49>>, <<97, 98>>>>>>, <<"cls", TRUE, <<<<97, 97>>>>>> }
Repeats == { <<0, -1>>, <<1, -1>>, <<0, 1>>, <<2, 2>>, <<1, 2>> }
Level1 == Atoms \cup { <<"rep", x, r[1], r[2]>> : x \in Atoms, r \in Repeats }
Alts == { <<"grp", <<"alt", <<x, y>>>>>> : x \in Atoms, y \in Level1 }
Level2 == Alts \cup { <<"cat", <<x, y>>>> : x \in Level1, y \in Level1 }
          \cup { <<"rep", x, r[1], r[2]>> : x \in { <<"grp", <<"cat", <<y, z>>>>>> : y \in Atoms, z \in Level1 } \cup Alts, r \in {<<0, -1>>, <<2, 2>>} }
Bodies == IF Depth = 1 THEN Level1 \cup Alts ELSE Level2
Whole(b) == <<"cat", <<<<"bol">>>> \o (IF b[1] = "cat" THEN b[2] ELSE <<b>>) \o <<<<"eol">>>>>>
(* globs over the alphabet with at least one star that is not at the end *)
GlobTexts == { g \in UNION { [1 .. m -> Alphabet \cup {Star}] : m \in 1 .. Depth + 2 } : TermOf(g).k = "glob" }
GlobBody(g) == <<"cat", [i \in 1 .. Len(g) |-> IF g[i] = Star THEN <<"rep", <<"any">>, 0, -1>> ELSE <<"lit", g[i]>>]>>

VARIABLES src,      \* the expression, or the glob
          rest,     \* what is still to be matched
          txt
vars == <<src, rest, txt>>

None == <<"none">>
Eps == <<"cat", <<>>>>
RECURSIVE Nullable(_), Deriv(_, _), CatDeriv(_, _)
Nullable(x) ==
    CASE x[1] \in {"none", "lit", "any", "dig", "cls"} -> FALSE
      [] x[1] = "grp" -> Nullable(x[2])
      [] x[1] = "cat" -> \A i \in 1 .. Len(x[2]) : Nullable(x[2][i])
      [] x[1] = "alt" -> \E i \in 1 .. Len(x[2]) : Nullable(x[2][i])
      [] x[1] = "rep" -> x[3] = 0 \/ Nullable(x[2])
Cat(x, y) == IF x = None \/ y = None THEN None ELSE IF x = Eps THEN y ELSE IF y = Eps THEN x ELSE <<"cat", <<x, y>>>>
Alt(x, y) == IF x = None \/ x = y THEN y ELSE IF y = None THEN x ELSE <<"alt", <<x, y>>>>
If(b) == IF b THEN Eps ELSE None
Deriv(x, c) ==
    CASE x[1] = "none" -> None
      [] x[1] = "lit" -> If(c = x[2])
      [] x[1] = "any" -> If(c # Newline)
      [] x[1] = "dig" -> If(IsDigit(c))
      [] x[1] = "cls" -> If((\E i \in 1 .. Len(x[3]) : x[3][i][1] <= c /\ c <= x[3][i][2]) # x[2])
      [] x[1] = "grp" -> Deriv(x[2], c)
      [] x[1] = "cat" -> CatDeriv(x[2], c)
      [] x[1] = "alt" -> FoldLeft(LAMBDA acc, y : Alt(acc, Deriv(y, c)), None, x[2])
      [] x[1] = "rep" -> IF x[4] = 0 THEN None
                         ELSE Cat(Deriv(x[2], c), <<"rep", x[2], Max2(x[3] - 1, 0), IF x[4] = -1 THEN -1 ELSE x[4] - 1>>)
CatDeriv(s, c) ==
    IF s = <<>> THEN None
    ELSE LET here == Cat(Deriv(s[1], c), IF Len(s) = 1 THEN Eps ELSE <<"cat", Tail(s)>>)
         IN IF Nullable(s[1]) THEN Alt(here, CatDeriv(Tail(s), c)) ELSE here

Init == /\ txt = <<>>
        /\ IF Globs THEN \E g \in GlobTexts : src = g /\ rest = GlobBody(g)
           ELSE \E b \in Bodies : src = Whole(b) /\ rest = b
Read(c) == Len(txt) < N /\ txt' = Append(txt, c) /\ rest' = Deriv(rest, c) /\ UNCHANGED src
Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

Agrees == Nullable(rest) = (IF Globs THEN GlobMatch(src, txt) ELSE RxFound(src, txt))
(* once nothing can match any more, nothing ever does *)
Hopeless == [][rest = None => rest' = None]_vars
(* the text of the expression is a term of the right kind *)
Kind == txt = <<>> => TermOf(IF Globs THEN src ELSE RxText(src)).k = (IF Globs THEN "glob" ELSE "regex")
GlobAsRegex == Globs => GlobMatch(src, txt) = RxFound(Whole(GlobBody(src)), txt)
Emitted == (Emit /\ txt = <<>>) => PrintT(ToJson([src |-> src, t |-> IF Globs THEN src ELSE RxText(src)]))
====
