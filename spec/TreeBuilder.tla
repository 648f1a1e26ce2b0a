---- MODULE TreeBuilder ----
(***************************************************************************)
(* Building the tree of an expression with a stack of combinators, one      *)
(* token per step. The tokens come from the environment: the behaviours are *)
(* the readings of all token sequences up to N. As the text is enclosed in  *)
(* parentheses, the reader has already seen "(" at the start, and Finish    *)
(* lets it see ")". The n-th term of a text is the term <<n>>.              *)
(*                                                                         *)
(* The output is a group under construction: while its combinator is "None" *)
(* its parts are the operands waiting; once everything read is one group,   *)
(* the output is that group itself, and is wrapped again before the next    *)
(* term.                                                                    *)
(***************************************************************************)
EXTENDS Show, TLC, Json

CONSTANTS N, MaxTerms, Emit

VARIABLES toks,      \* tokens read (without the enclosing parentheses)
          nt,        \* terms read
          out,       \* the output: Node(c, parts)
          stack,     \* combinators and open parentheses, the last is on top
          want,      \* an operand has to come next
          status     \* "read"; "ok", "err": finished; "dead": refused whatever follows
vars == <<toks, nt, out, stack, want, status>>

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
CombOf(t) == IF t = <<Bar>> THEN "Or" ELSE "And"

(* Apply the combinators on the stack down to one in stop. *)
JoinLast(o, c) ==
    LET m == Len(o.p)
        j == Node(c, Parts(c, o.p[m - 1]) \o Parts(c, o.p[m]))
    IN IF m = 2 THEN j ELSE Node(o.c, SubSeq(o.p, 1, m - 2) \o <<j>>)
RECURSIVE Apply(_, _, _)
Apply(o, s, stop) ==
    IF s = <<>> \/ Top(s) \in stop THEN [ok |-> TRUE, o |-> o, s |-> s]
    ELSE IF Len(o.p) < 2 THEN [ok |-> FALSE, o |-> o, s |-> s]
    ELSE Apply(JoinLast(o, CombOf(Top(s))), Pop(s), stop)

Refuse == status' = "dead" /\ UNCHANGED <<out, stack, want>>

Init == toks = <<>> /\ nt = 0 /\ out = Node("None", <<>>) /\ stack = << <<LP>> >> /\ want = TRUE /\ status = "read"

Typed(k) == Len(toks) < N /\ toks' = Append(toks, k)
Open == /\ Typed(<<LP>>) /\ UNCHANGED nt
        /\ IF ~want THEN Refuse
           ELSE stack' = Append(stack, <<LP>>) /\ UNCHANGED <<out, want, status>>
Term == /\ nt < MaxTerms /\ Typed(<<nt + 1>>) /\ nt' = nt + 1
        /\ IF ~want THEN Refuse
           ELSE /\ out' = (IF out.c # "None" THEN Node("None", <<out, Leaf(<<nt + 1>>)>>)
                           ELSE Node("None", Append(out.p, Leaf(<<nt + 1>>))))
                /\ want' = FALSE /\ UNCHANGED <<stack, status>>
Combine(k) ==
    /\ Typed(k) /\ UNCHANGED nt
    /\ LET r == Apply(out, stack, IF k = <<Bar>> THEN {<<LP>>} ELSE {<<Bar>>, <<LP>>}) IN
       IF want \/ ~r.ok THEN Refuse
       ELSE out' = r.o /\ stack' = Append(r.s, k) /\ want' = TRUE /\ UNCHANGED status
CloseWith(last) ==
    LET r == Apply(out, stack, {<<LP>>}) IN
    IF want \/ ~r.ok \/ r.s = <<>>
    THEN status' = (IF last THEN "err" ELSE "dead") /\ UNCHANGED <<out, stack, want>>
    ELSE /\ out' = r.o /\ stack' = Pop(r.s) /\ UNCHANGED want
         /\ status' = (IF ~last THEN status ELSE IF Len(r.s) = 1 THEN "ok" ELSE "err")
Shut == Typed(<<RP>>) /\ UNCHANGED nt /\ CloseWith(FALSE)
(* the enclosing ")" *)
Finish == UNCHANGED <<toks, nt>> /\ CloseWith(TRUE)
Further == /\ status = "dead" /\ UNCHANGED <<out, stack, want, status>>
           /\ \/ nt < MaxTerms /\ Typed(<<nt + 1>>) /\ nt' = nt + 1
              \/ UNCHANGED nt /\ \E k \in CombTok : Typed(k)
Next == \/ status = "read" /\ (Open \/ Shut \/ Term \/ Combine(<<Bar>>) \/ Combine(<<Comma>>) \/ Finish)
        \/ Further
Spec == Init /\ [][Next]_vars

(* ---- properties --------------------------------------------------------------- *)
Whole == << <<LP>> >> \o toks \o << <<RP>> >>
G == ParseToks(Whole)
AcceptsGrammar == status = "ok" => G.ok
RefusesOthers == status \in {"err", "dead"} => ~G.ok
BuildsTree == status = "ok" => out = TreeOf(G.n)
IsCanonical == status = "ok" => Canonical(out)
InOrder == status = "ok" => Leaves(out) = [i \in 1 .. nt |-> <<i>>]
(* all the operands waiting, as trees, and the operators between them *)
Waiting == IF out.c = "None" THEN out.p ELSE <<out>>
Balance == status = "read" =>
           Len(Waiting) = Cardinality({i \in 1 .. Len(stack) : stack[i] # <<LP>>}) + (IF want THEN 0 ELSE 1)
(* the combinators above an open parenthesis rise in strength *)
Rises == status = "read" =>
         \A i \in 1 .. Len(stack) - 1 : (stack[i] # <<LP>> /\ stack[i + 1] # <<LP>>) => stack[i] = <<Bar>> /\ stack[i + 1] = <<Comma>>
(* meaning: and binds tighter than or, groups first *)
RECURSIVE OrVal(_, _, _), AndVal(_, _, _), PrimVal(_, _, _), OrRest(_, _, _, _), AndRest(_, _, _, _)
PrimVal(k, i, val) == IF k[i] = <<LP>> THEN LET r == OrVal(k, i + 1, val) IN [v |-> r.v, i |-> r.i + 1]
                      ELSE [v |-> val[k[i][1]], i |-> i + 1]
AndRest(k, i, v, val) == IF i > Len(k) \/ k[i] # <<Comma>> THEN [v |-> v, i |-> i]
                         ELSE LET r == PrimVal(k, i + 1, val) IN AndRest(k, r.i, v /\ r.v, val)
AndVal(k, i, val) == LET r == PrimVal(k, i, val) IN AndRest(k, r.i, r.v, val)
OrRest(k, i, v, val) == IF i > Len(k) \/ k[i] # <<Bar>> THEN [v |-> v, i |-> i]
                        ELSE LET r == AndVal(k, i + 1, val) IN OrRest(k, r.i, v \/ r.v, val)
OrVal(k, i, val) == LET r == AndVal(k, i, val) IN OrRest(k, r.i, r.v, val)
Means == status = "ok" => \A val \in [1 .. nt -> BOOLEAN] : Eval(out, val) = OrVal(toks, 1, val).v
(* rendering reads back as the same tree, and is the shortest writing up to   *)
(* the parentheses around a group in a group                                   *)
RoundTrip == status = "ok" => LET r == ParseExpr(Render(out)) IN r.ok /\ TreeOf(r.n) = out /\ Render(TreeOf(r.n)) = Render(out)
(* equal trees for texts that differ only in redundant parentheses *)
Redundant == status = "ok" => TreeOf(ParseToks(<< <<LP>> >> \o Whole \o << <<RP>> >>).n) = out
(* every tree built can be written, and is shown as its rendering *)
ShowsTree == status = "ok" => Writable(out) /\ Written(out, FALSE) = Render(out) /\ NodeText(out) = Quoted(Render(out))

Emitted == (Emit /\ status # "read") => PrintT(ToJson([s |-> status, k |-> toks]))
====
