---- MODULE Nesting ----
(***************************************************************************)
(* Calls inside calls: a caller's parser, path or stream is asked in the     *)
(* middle of a call and may use the library itself, fail, or panic. The      *)
(* answer to a call is a function of its arguments nevertheless, and nothing  *)
(* of a call is left behind when it is over, however it ended.                *)
(* Scratch = "shared" is the design that must not be: one buffer for all      *)
(* calls that are under way.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, Depth, Scratch, Emit

Args == 0 .. 1
\* "ask" has nothing to ask back
Kinds == {"ask", "parse", "fail", "panic", "load"}
VARIABLES stack,       \* the calls under way, the innermost last
          scratch, held,
          answers, n, log
vars == <<stack, scratch, held, answers, n, log>>
Top == stack[Len(stack)]
Init == stack = <<>> /\ scratch = 0 /\ held = 0 /\ answers = {} /\ n = 0 /\ log = <<>>
Begin(k, a) == /\ n < N /\ Len(stack) < Depth
               /\ stack # <<>> => Top[1] # "ask"
               /\ stack' = Append(stack, <<k, a>>) /\ scratch' = a /\ held' = held + 1
               /\ n' = n + 1 /\ log' = IF Emit THEN Append(log, <<k, a>>) ELSE log
               /\ UNCHANGED answers
True(k, a) == CASE k = "fail" -> "err" [] k = "panic" -> "panic" [] OTHER -> <<k, a>>
Answer(k, a) == IF Scratch = "shared" THEN True(k, scratch) ELSE True(k, a)
End == /\ stack # <<>>
       /\ answers' = answers \cup {<<Top, Answer(Top[1], Top[2])>>}
       /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ held' = held - 1
       /\ log' = IF Emit THEN Append(log, <<"end", 0>>) ELSE log
       /\ UNCHANGED <<scratch, n>>
Next == End \/ \E k \in Kinds, a \in Args : Begin(k, a)
Spec == Init /\ [][Next]_vars /\ WF_vars(End)

RightAnswer == \A x \in answers : x[2] = True(x[1][1], x[1][2])
NothingLeft == held = Len(stack)
OverAtLast == [](stack # <<>> => <>(Len(stack) = 0 \/ n < N))
Emitted == (Emit /\ n = N /\ stack = <<>>) => PrintT(ToJson([log |-> log]))
====
