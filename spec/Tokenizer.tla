---- MODULE Tokenizer ----
(***************************************************************************)
(* Cutting the text of an expression into tokens, one character at a time.  *)
(* A '^' where a token may start opens a regular expression, which ends at  *)
(* the next '$' whatever is in between; whether there is one is not known   *)
(* yet, so the reader goes on reading plainly and remembers where it was.   *)
(***************************************************************************)
EXTENDS Expr, TLC, Json

CONSTANTS Alphabet, N, Emit
VARIABLES txt, st
vars == <<txt, st>>

NoRx == [on |-> FALSE, toks |-> <<>>, s |-> <<>>]
(* toks, cur: the plain reading; rx: the regular expression begun *)
Start == [toks |-> << <<LP>> >>, cur |-> <<>>, rx |-> NoRx]
Flush(s) == IF Trim(s.cur) = <<>> THEN s.toks ELSE Append(s.toks, Trim(s.cur))
Grow(s, c) == IF s.rx.on THEN [s EXCEPT !.rx.s = Append(@, c)] ELSE s
Char(s, c) ==
    IF c = DollarC /\ s.rx.on
    THEN [toks |-> Append(s.rx.toks, Append(s.rx.s, c)), cur |-> <<>>, rx |-> NoRx]
    ELSE IF c \in Special
    THEN [Grow(s, c) EXCEPT !.toks = Append(Flush(s), <<c>>), !.cur = <<>>]
    ELSE LET g == Grow(s, c) IN
         [g EXCEPT !.cur = Append(@, c),
                   !.rx = IF c = HatC /\ ~s.rx.on /\ Trim(s.cur) = <<>>
                          THEN [on |-> TRUE, toks |-> s.toks, s |-> <<HatC>>] ELSE @]
Init == txt = <<>> /\ st = Start
Read(c) == Len(txt) < N /\ txt' = Append(txt, c) /\ st' = Char(st, c)
Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

Result == Char(st, RP).toks
Agrees == Result = Tokens(Enclosed(txt))
(* nothing but white space is dropped *)
Solid(t) == SelectSeq(t, LAMBDA c : ~IsSpace(c))
NothingLost == FoldLeft(LAMBDA acc, k : acc \o Solid(k), <<>>, Result) = Solid(Enclosed(txt))
(* a token is a mark, a regular expression, or free of marks *)
Kinds == \A i \in 1 .. Len(Result) : LET k == Result[i] IN
            /\ k # <<>> /\ Trim(k) = k
            /\ \/ k \in CombTok
               \/ k[1] = HatC /\ k[Len(k)] = DollarC
               \/ \A j \in 1 .. Len(k) : k[j] \notin Special
(* a text without '^' is cut at its marks and nowhere else *)
PlainCuts == ~Has(txt, HatC) =>
             SelectSeq(Result, IsTermTok) =
             SelectSeq(Map(Trim, SplitOn(txt, LAMBDA c : c \in Special)), LAMBDA p : p # <<>>)
Emitted == Emit => PrintT(ToJson([t |-> txt]))
====
