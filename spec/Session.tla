---- MODULE Session ----
(***************************************************************************)
(* A process in which several threads use the same versions, constraints    *)
(* and index files. A call has a begin and an end, so that calls overlap;   *)
(* compiled expressions shared by all calls are made at their first use, by  *)
(* one thread while others wait; a file may be replaced between loads.       *)
(* What is promised: the answer to a call is a function of what its          *)
(* arguments mean, whatever happened before or happens at the same time.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, Calls, Cache, Emit

VARIABLES obj,        \* register -> meaning; registers are never assigned
          file,       \* slot -> contents
          lazy,       \* shared expression -> "no", "busy", "yes"
          made,       \* how often each was made
          pc,         \* thread -> "idle" or what it is doing
          left,       \* thread -> calls left
          cache,      \* remembered answers (only if Cache # "none")
          answers,    \* set of <<question, answer>>
          hist        \* the calls in the order they began
vars == <<obj, file, lazy, made, pc, left, cache, answers, hist>>

Regs == 0 .. 2
Ops == {"cmp", "sw", "match", "matcht", "read", "dump", "render", "expr", "load", "bad", "tcmp", "tmatch"}
Shared(op) == CASE op \in {"cmp", "sw"} -> {"tags"}
                [] op = "tcmp" -> {"tags", "digits"} [] op = "tmatch" -> {"tags", "digits", "tokens", "relation"}
                [] op = "match" -> {"tags"} [] op = "matcht" -> {"tags", "digits"}
                [] op \in {"read", "bad"} -> {"digits"}
                [] op = "expr" -> {"tokens", "relation", "digits"}
                [] op = "load" -> {"digits"}
                [] OTHER -> {}
AllShared == {"tags", "digits", "tokens", "relation"}
\* registers 0 and 1 hold texts that differ only in case, 2 another one
Meaning(r) == <<"x", r>>
CaseAside(r) == IF r = 1 THEN 0 ELSE r

Init == /\ obj = [r \in Regs |-> Meaning(r)] /\ file = [t \in Threads |-> 0]
        /\ lazy = [s \in AllShared |-> "no"] /\ made = [s \in AllShared |-> 0]
        /\ pc = [t \in Threads |-> <<"idle">>] /\ left = [t \in Threads |-> Calls]
        /\ cache = {} /\ answers = {} /\ hist = <<>>

Begin(t) == /\ pc[t] = <<"idle">> /\ left[t] > 0
            /\ \E op \in Ops, a \in Regs, b \in Regs :
                 /\ op \in {"read", "dump", "render", "expr", "bad"} => b = 0
                 /\ pc' = [pc EXCEPT ![t] = <<"run", op, a, b>>]
                 /\ hist' = IF Emit THEN Append(hist, <<t, op, a, b>>) ELSE hist
                 \* loading: the thread's own file gets new contents first
                 /\ file' = IF op = "load" THEN [file EXCEPT ![t] = a] ELSE file
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<obj, lazy, made, cache, answers>>
Make(t, s) == /\ pc[t][1] = "run" /\ s \in Shared(pc[t][2]) /\ lazy[s] = "no"
              /\ lazy' = [lazy EXCEPT ![s] = "busy"] /\ made' = [made EXCEPT ![s] = @ + 1]
              /\ pc' = [pc EXCEPT ![t] = <<"make", s>> \o Tail(pc[t])]
              /\ UNCHANGED <<obj, file, left, cache, answers, hist>>
Made(t) == /\ pc[t][1] = "make"
           /\ lazy' = [lazy EXCEPT ![pc[t][2]] = "yes"]
           /\ pc' = [pc EXCEPT ![t] = <<"run">> \o Tail(Tail(pc[t]))]
           /\ UNCHANGED <<obj, file, made, left, cache, answers, hist>>
Ready(op) == \A s \in Shared(op) : lazy[s] = "yes"
Question(t) == LET c == pc[t] IN <<c[2], IF c[2] = "load" THEN file[t] ELSE obj[c[3]], obj[c[4]]>>
True(q) == <<q[1], q[2], q[3]>>
\* "tcmp" and "tmatch" make their first object for the one call, in memory that is used again afterwards:
\* by where it lies it can't be told from the one before
CacheKey(q) == IF Cache = "address" /\ q[1] \in {"tcmp", "tmatch"} THEN <<q[1], "scratch", q[3]>>
               ELSE IF Cache = "case" THEN <<q[1], IF q[1] = "load" THEN q[2] ELSE CaseAside(q[2][2]), q[3]>> ELSE q
Answer(q) == IF Cache = "none" \/ ~\E e \in cache : e[1] = CacheKey(q) THEN True(q)
             ELSE (CHOOSE e \in cache : e[1] = CacheKey(q))[2]
End(t) == /\ pc[t][1] = "run" /\ Ready(pc[t][2])
          /\ LET q == Question(t) IN
             /\ answers' = answers \cup {<<q, Answer(q)>>}
             /\ cache' = IF Cache = "none" THEN cache ELSE cache \cup {<<CacheKey(q), Answer(q)>>}
          /\ pc' = [pc EXCEPT ![t] = <<"idle">>]
          /\ UNCHANGED <<obj, file, lazy, made, left, hist>>
Next == \E t \in Threads : Begin(t) \/ Made(t) \/ End(t) \/ \E s \in AllShared : Make(t, s)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Begin(t) \/ Made(t) \/ End(t) \/ \E s \in AllShared : Make(t, s))

AllDone == \A t \in Threads : pc[t] = <<"idle">> /\ left[t] = 0
SameAnswer == \A x \in answers, y \in answers : x[1] = y[1] => x[2] = y[2]
RightAnswer == \A x \in answers : x[2] = True(x[1])
Immutable == obj = [r \in Regs |-> Meaning(r)]
MadeOnce == \A s \in AllShared : made[s] <= 1 /\ (lazy[s] # "no") = (made[s] = 1)
(* nobody waits for ever *)
Finishes == <>AllDone
NoDeadlock == AllDone \/ ENABLED Next
Emitted == (Emit /\ AllDone) => PrintT(ToJson([h |-> hist]))
====
