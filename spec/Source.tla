---- MODULE Source ----
(***************************************************************************)
(* A document that arrives in pieces: the environment (a stream) delivers   *)
(* pieces of any length, may be interrupted, may fail, may end early or     *)
(* carry on behind the end; the reader takes one symbol at a time from what  *)
(* has arrived. It has to see the document and not the pieces.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS N,            \* symbols of the document
          Extra,        \* symbols that may follow it
          Most,         \* longest piece
          Stops,        \* interruptions
          Emit

VARIABLES plan,         \* what the environment did
          buf,          \* arrived, not yet taken
          pos,          \* symbols taken
          stops, status \* "read"; "ok", "err": ended
vars == <<plan, buf, pos, stops, status>>

Doc == [i \in 1 .. N |-> i]
Sent == LET RECURSIVE Sum(_)
            Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + (IF plan[i] > 0 THEN plan[i] ELSE 0)
        IN Sum(Len(plan))
Interrupted == 0        \* in a plan: 0 an interruption, n > 0 a piece of n symbols; at its end 98 failed, 99 no more
Failed == 98
Closed == 99

Init == plan = <<>> /\ buf = <<>> /\ pos = 0 /\ stops = 0 /\ status = "read"
Symbol(i) == IF i <= N THEN Doc[i] ELSE N + 1
Deliver == /\ status = "read" /\ buf = <<>>
           /\ \E k \in 1 .. Most :
                 /\ pos + k <= N + Extra
                 /\ buf' = [i \in 1 .. k |-> Symbol(pos + i)]
                 /\ plan' = Append(plan, k)
           /\ UNCHANGED <<pos, stops, status>>
Interrupt == /\ status = "read" /\ buf = <<>> /\ stops < Stops
             /\ stops' = stops + 1 /\ plan' = Append(plan, Interrupted)
             /\ UNCHANGED <<buf, pos, status>>
Take == /\ status = "read" /\ buf # <<>>
        /\ pos' = pos + 1 /\ buf' = Tail(buf)
        /\ status' = IF pos < N /\ Head(buf) = Doc[pos + 1] THEN "read" ELSE "err"
        /\ UNCHANGED <<plan, stops>>
End == /\ status = "read" /\ buf = <<>>
       /\ status' = IF pos = N THEN "ok" ELSE "err"
       /\ plan' = Append(plan, Closed) /\ UNCHANGED <<buf, pos, stops>>
Fail == /\ status = "read" /\ buf = <<>>
        /\ status' = "err" /\ plan' = Append(plan, Failed) /\ UNCHANGED <<buf, pos, stops>>
Next == Deliver \/ Interrupt \/ Take \/ End \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(End)

\* what the pieces amount to
Total(p) == LET RECURSIVE Sum(_)
                Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + (IF p[i] \notin {Interrupted, Failed, Closed} THEN p[i] ELSE 0)
            IN Sum(Len(p))
Whole(p) == p # <<>> /\ p[Len(p)] = Closed /\ Total(p) = N
Done == status \in {"ok", "err"}
PiecesAside == Done => (status = "ok" <=> Whole(plan))
NothingKept == status = "ok" => buf = <<>> /\ pos = N
Dead == [][Done => UNCHANGED status]_vars
Ends == <>Done
Emitted == (Emit /\ Done) => PrintT(ToJson([plan |-> plan, s |-> status]))
====
