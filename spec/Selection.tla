---- MODULE Selection ----
(***************************************************************************)
(* Constraints by order over the versions of a finite world: a session      *)
(* writes a constraint term by term, and keeps the set it selects and the    *)
(* set its dual selects.                                                    *)
(***************************************************************************)
EXTENDS Vocabulary

CONSTANTS MaxTerms, Emit

VARIABLES written,     \* sequence of <<combinator, operator, version>>; read from the left, each joined to all before it
          sel, dual    \* selected by it; selected by the inverted operators under the exchanged combinators
vars == <<written, sel, dual>>

M == [i \in Ix |-> [j \in Ix |-> Cmp(Parts[i], Parts[j])]]
Meets(op, v) == { i \in Ix : RelHolds(op, M[i][v]) }

Init == \E op \in RelOps, v \in Ix :
            /\ written = << <<"", op, v>> >> /\ sel = Meets(op, v) /\ dual = Meets(Invert(op), v)
Join(c, op, v) ==
    /\ Len(written) < MaxTerms
    /\ written' = Append(written, <<c, op, v>>)
    /\ sel' = IF c = "And" THEN sel \cap Meets(op, v) ELSE sel \cup Meets(op, v)
    /\ dual' = IF c = "And" THEN dual \cup Meets(Invert(op), v) ELSE dual \cap Meets(Invert(op), v)
Next == \E c \in {"And", "Or"}, op \in RelOps, v \in Ix : Join(c, op, v)
Spec == Init /\ [][Next]_vars

Complementary == dual = Ix \ sel
EqualAlike == \A i \in Ix, j \in Ix : M[i][j] = 0 => (i \in sel <=> j \in sel)
Interval == (\A k \in 1 .. Len(written) : written[k][1] # "Or" /\ written[k][2] # "Ne") =>
         \A j \in Ix \ sel : ~((\E i \in sel : M[i][j] <= 0) /\ (\E k \in sel : M[j][k] <= 0))
(* ordering terms alone: closed upwards or downwards *)
Closed == (Len(written) = 1 /\ written[1][2] \in {"Lt", "Le", "Gt", "Ge"}) =>
          LET up == written[1][2] \in {"Gt", "Ge"} IN
          \A i \in sel, j \in Ix : (IF up THEN M[i][j] <= 0 ELSE M[j][i] <= 0) => j \in sel
(* the newest of what is left, whatever the order in which it is listed *)
Better(t, i) == IF i \notin sel THEN t ELSE IF t = 0 THEN i ELSE IF M[i][t] > 0 THEN i ELSE t
Scan(order) == FoldLeft(Better, 0, order)
Newest == LET up == [i \in Ix |-> i] down == [i \in Ix |-> Size + 1 - i]
              a == Scan(up) b == Scan(down)
          IN IF sel = {} THEN a = 0 /\ b = 0
             ELSE a \in sel /\ b \in sel /\ M[a][b] = 0 /\ \A i \in sel : M[i][a] <= 0
(* a conjunct narrows, an alternative widens *)
Top(w) == w[Len(w)][1]
Monotone == [][IF Top(written') = "And" THEN sel' \subseteq sel ELSE sel \subseteq sel']_vars
Emitted == Emit => PrintT(ToJson([w |-> [k \in 1 .. Len(written) |-> <<written[k][1], Sign(written[k][2]), Texts[written[k][3]]>>],
                                  d |-> [k \in 1 .. Len(written) |-> Sign(Invert(written[k][2]))],
                                  ts |-> Texts]))
====
