---- MODULE CompOp ----
(***************************************************************************)
(* The operator vocabulary.                                                *)
(***************************************************************************)
EXTENDS Text

OpSeq == <<"Eq", "Ne", "Lt", "Le", "Gt", "Ge", "StartsWith", "NotStartsWith",
           "Compatible", "Incompatible">>
Ops == ToSet(OpSeq)

SW == <<115,116,97,114,116,115,119,105,116,104>>                 \* startswith
CO == <<99,111,109,112,97,116,105,98,108,101>>                    \* compatible
Sign(op) == CASE op = "Eq" -> <<61,61>>  [] op = "Ne" -> <<33,61>>
              [] op = "Lt" -> <<60>>     [] op = "Le" -> <<60,61>>
              [] op = "Gt" -> <<62>>     [] op = "Ge" -> <<62,61>>
              [] op = "StartsWith" -> <<61>>
              [] op = "NotStartsWith" -> <<33,61>> \o SW
              [] op = "Compatible" -> <<126,61>>
              [] op = "Incompatible" -> <<33,126,61>>
Name(op) == CASE op = "Eq" -> <<101,113>> [] op = "Ne" -> <<110,101>>
              [] op = "Lt" -> <<108,116>> [] op = "Le" -> <<108,101>>
              [] op = "Gt" -> <<103,116>> [] op = "Ge" -> <<103,101>>
              [] op = "StartsWith" -> SW
              [] op = "NotStartsWith" -> <<110,111,116>> \o SW
              [] op = "Compatible" -> CO
              [] op = "Incompatible" -> <<105,110>> \o CO

FromSign(t) == LET s == Trim(t)
               IN IF \E op \in Ops : Sign(op) = s THEN CHOOSE op \in Ops : Sign(op) = s ELSE "err"
FromName(t) == LET s == Map(AsciiLower1, Trim(t))
               IN IF \E op \in Ops : Name(op) = s THEN CHOOSE op \in Ops : Name(op) = s ELSE "err"

Invert(op) == CASE op = "Eq" -> "Ne" [] op = "Ne" -> "Eq" [] op = "Lt" -> "Ge" [] op = "Ge" -> "Lt"
                [] op = "Le" -> "Gt" [] op = "Gt" -> "Le"
                [] op = "StartsWith" -> "NotStartsWith" [] op = "NotStartsWith" -> "StartsWith"
                [] op = "Compatible" -> "Incompatible" [] op = "Incompatible" -> "Compatible"
Flip(op) == CASE op = "Lt" -> "Gt" [] op = "Gt" -> "Lt" [] op = "Le" -> "Ge" [] op = "Ge" -> "Le"
              [] OTHER -> op
Opposite(op) == CASE op \in {"Lt", "Gt", "Le", "Ge"} -> Flip(op)
                  [] OTHER -> Invert(op)
Factor(op) == CASE op \in {"Lt", "Le"} -> -1 [] op \in {"Gt", "Ge"} -> 1 [] OTHER -> 0
\* the ordering an operator stands for, 8 for none
Ord(op) == CASE op = "Lt" -> -1 [] op = "Eq" -> 0 [] op = "Gt" -> 1 [] OTHER -> 8
FromOrd(n) == CASE n = -1 -> "Lt" [] n = 0 -> "Eq" [] n = 1 -> "Gt"
====
