---- MODULE Convert ----
(***************************************************************************)
(* A constraint in the hands of a program: made as a term or as a tree,     *)
(* turned into the common type, taken out of it again (as what it is, or     *)
(* by mistake as the other), copied. Whatever is done, it stays what it is.  *)
(***************************************************************************)
EXTENDS Sequences, Naturals, TLC, Json
CONSTANTS N, Emit

Kinds == {"term", "tree"}
Other(k) == CASE k = "term" -> "tree" [] k = "tree" -> "term"

VARIABLES made,         \* what was made
          kind, wrapped, content,
          ops, answers
vars == <<made, kind, wrapped, content, ops, answers>>
Init == /\ made \in Kinds /\ kind = made /\ wrapped = FALSE /\ content = "c0" /\ ops = <<>> /\ answers = <<>>
Did(op, a) == Len(ops) < N /\ ops' = Append(ops, op) /\ answers' = Append(answers, a)
Wrap == ~wrapped /\ Did("wrap", "ok") /\ wrapped' = TRUE /\ UNCHANGED <<made, kind, content>>
Take(k) == /\ wrapped /\ Did(k, IF k = kind THEN "ok" ELSE "err")
           /\ wrapped' = (k # kind)
           /\ UNCHANGED <<made, kind, content>>
Copy == Did("copy", "ok") /\ UNCHANGED <<made, kind, wrapped, content>>
Next == Wrap \/ (\E k \in Kinds : Take(k)) \/ Copy
Spec == Init /\ [][Next]_vars

\* what a recorded sequence of operations has to have come to
RECURSIVE Replay(_, _, _)
Replay(k, w, os) == IF os = <<>> THEN <<>>
                    ELSE CASE Head(os) = "wrap" -> <<<<"ok", k, TRUE>>>> \o Replay(k, TRUE, Tail(os))
                           [] Head(os) = "copy" -> <<<<"ok", k, w>>>> \o Replay(k, w, Tail(os))
                           [] OTHER -> LET good == Head(os) = k IN
                                       <<<<IF good THEN "ok" ELSE "err", k, ~good>>>> \o Replay(k, ~good, Tail(os))
Same == kind = made /\ content = "c0"
Agrees == LET r == Replay(made, FALSE, ops) IN
          /\ [i \in 1 .. Len(r) |-> r[i][1]] = answers
          /\ r # <<>> => r[Len(r)] = <<answers[Len(answers)], kind, wrapped>>
Emitted == (Emit /\ Len(ops) = N) => PrintT(ToJson([kind |-> made, ops |-> ops]))
====
