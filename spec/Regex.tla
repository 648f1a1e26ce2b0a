---- MODULE Regex ----
(***************************************************************************)
(* Regular expressions: abstract syntax, concrete text, matching.          *)
(*   <<"lit", c>>  <<"any">>  <<"dig">>  <<"cls", neg, <<<<lo,hi>>,...>>>>  *)
(*   <<"bol">>  <<"eol">>  <<"cat", s>>  <<"alt", s>>  <<"grp", x>>         *)
(*   <<"rep", x, min, max>> (max = -1: no limit)                            *)
(*   <<"bad", text>>: a syntax error                                       *)
(***************************************************************************)
EXTENDS Text

RxMeta == {92, 46, 43, 42, 63, 40, 41, 124, 91, 93, 123, 125, 94, 36}
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Join(parts, sep) ==
    IF parts = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA acc, p : acc \o sep \o p, parts[1], Tail(parts))

RECURSIVE RxText(_)
RxText(x) ==
    CASE x[1] = "lit" -> IF x[2] \in RxMeta THEN <<92, x[2]>> ELSE <<x[2]>>
      [] x[1] = "any" -> <<46>>
      [] x[1] = "dig" -> <<92, 100>>
      [] x[1] = "bol" -> <<94>>
      [] x[1] = "eol" -> <<36>>
      [] x[1] = "bad" -> x[2]
      [] x[1] = "cls" -> <<91>> \o (IF x[2] THEN <<94>> ELSE <<>>)
                         \o FoldLeft(LAMBDA acc, r : acc \o (IF r[1] = r[2] THEN <<r[1]>> ELSE <<r[1], 45, r[2]>>),
                                     <<>>, x[3])
                         \o <<93>>
      [] x[1] = "grp" -> <<40>> \o RxText(x[2]) \o <<41>>
      [] x[1] = "cat" -> FoldLeft(LAMBDA acc, y : acc \o RxText(y), <<>>, x[2])
      [] x[1] = "alt" -> Join([i \in 1 .. Len(x[2]) |-> RxText(x[2][i])], <<124>>)
      [] x[1] = "rep" -> RxText(x[2]) \o
                         (CASE x[3] = 0 /\ x[4] = -1 -> <<42>>
                            [] x[3] = 1 /\ x[4] = -1 -> <<43>>
                            [] x[3] = 0 /\ x[4] = 1  -> <<63>>
                            [] x[3] = x[4] -> <<123>> \o Dec(x[3]) \o <<125>>
                            [] x[4] = -1 -> <<123>> \o Dec(x[3]) \o <<44, 125>>
                            [] OTHER -> <<123>> \o Dec(x[3]) \o <<44>> \o Dec(x[4]) \o <<125>>)

RECURSIVE RxValid(_)
RxValid(x) ==
    CASE x[1] = "bad" -> FALSE
      [] x[1] \in {"cat", "alt"} -> \A i \in 1 .. Len(x[2]) : RxValid(x[2][i])
      [] x[1] \in {"grp", "rep"} -> RxValid(x[2])
      [] OTHER -> TRUE

Step(t, S, P(_)) == {i + 1 : i \in {j \in S : j < Len(t) /\ P(t[j + 1])}}

(* Positions reachable from the positions S by matching x against t. *)
RECURSIVE RxEnds(_, _, _), RxTimes(_, _, _, _), RxStar(_, _, _)
RxEnds(x, t, S) ==
    CASE x[1] = "lit" -> Step(t, S, LAMBDA c : c = x[2])
      [] x[1] = "any" -> Step(t, S, LAMBDA c : c # 10)
      [] x[1] = "dig" -> Step(t, S, IsDigit)
      [] x[1] = "cls" -> Step(t, S, LAMBDA c :
                              (\E i \in 1 .. Len(x[3]) : x[3][i][1] <= c /\ c <= x[3][i][2]) # x[2])
      [] x[1] = "bol" -> S \cap {0}
      [] x[1] = "eol" -> S \cap {Len(t)}
      [] x[1] = "grp" -> RxEnds(x[2], t, S)
      [] x[1] = "cat" -> FoldLeft(LAMBDA R, y : RxEnds(y, t, R), S, x[2])
      [] x[1] = "alt" -> UNION {RxEnds(x[2][i], t, S) : i \in 1 .. Len(x[2])}
      [] x[1] = "rep" -> LET B == RxTimes(x[2], t, S, x[3]) IN
                         IF x[4] = -1 THEN RxStar(x[2], t, B)
                         ELSE UNION {RxTimes(x[2], t, B, k) : k \in 0 .. (x[4] - x[3])}
RxTimes(x, t, S, k) == IF k = 0 THEN S ELSE RxTimes(x, t, RxEnds(x, t, S), k - 1)
RxStar(x, t, S) == LET R == S \cup RxEnds(x, t, S) IN IF R = S THEN S ELSE RxStar(x, t, R)

(* the expression is found somewhere in the text *)
RxFound(x, t) == RxEnds(x, t, 0 .. Len(t)) # {}
====
