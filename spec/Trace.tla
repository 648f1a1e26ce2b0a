---- MODULE Trace ----
(***************************************************************************)
(* Validates a recorded execution: one event per step, accepted iff the    *)
(* law of property Prop allows it. The behaviour ends at the first event   *)
(* that no action explains.                                                *)
(***************************************************************************)
EXTENDS LawShow, LawIndex, LawConvert, TLC, TLCExt, Json, IOUtils

CONSTANTS Prop,          \* the property under check
          Known          \* identifiers of the known findings whose deviations are admitted
TraceFile == IOEnv.TRACE
Events == ndJsonDeserialize(TraceFile)

VARIABLES l,             \* next event
          memo           \* C22: answers given so far, by call
tvars == <<l, memo>>

(* Generator mistakes are errors of the machinery, not of the code. *)
GenCheck(e, ok) == Assert(ok, <<"GENERATOR", l, e.e>>)

PairCmp(e, L(_, _, _)) == BothRead(e) => L(e.a, e.b, e.ab.cmp) /\ L(e.b, e.a, e.ba.cmp)
RowCmp(e, L(_, _, _)) == e.ok => \A i \in 1 .. Len(e.ts), j \in 1 .. Len(e.ts) : L(e.ts[i], e.ts[j], e.m[i][j])

Law(e) ==
    CASE e.e = "abort" -> FALSE          \* the process died or hung in this call
      [] e.e = "skip" -> TRUE            \* an ingredient was not accepted: C01, C14 and C16 judge that
      [] Prop = "C01" -> LawC01(e)
      [] Prop = "C02" -> IF e.e = "custom" THEN LawC02Custom(e) ELSE LawC02(e)
      [] Prop = "C03" -> LawC03(e)
      [] Prop = "C04" -> LawC04(e)
      [] Prop = "C05" -> (CASE e.e = "ext" -> LawC05Ext(e)
                            [] e.e = "pair" -> PairCmp(e, LawC05Pair)
                            [] e.e = "pool" -> RowCmp(e, LawC05Pair))
      [] Prop = "C06" -> (IF e.e = "pool" THEN RowCmp(e, LawC06Pair) ELSE PairCmp(e, LawC06Pair))
      [] Prop = "C07" -> (IF e.e = "pool" THEN RowCmp(e, LawC07Pair) ELSE PairCmp(e, LawC07Pair))
      [] Prop = "C08" -> LawC08Pair(e)
      [] Prop = "C09" -> IF e.e = "op" THEN LawC09Op(e) ELSE LawC09Read(e)
      [] Prop = "C10" -> IF e.e = "pool" THEN LawC10Pool(e) ELSE LawC10Pair(e)
      [] Prop = "C11" -> LawC11(e)
      [] Prop = "C12" -> LawC12(e)
      [] Prop = "C13" -> LawC13(e)
      [] Prop = "C14" -> (CASE e.e = "term" -> LawC14Term(e)
                            [] e.e = "expr" -> LawC14Expr(e)
                            [] e.e = "vec" -> LawC14Vec(e))
      [] Prop = "C15" -> (CASE e.e = "expr" -> GenCheck(e, GenOK(e)) /\ LawC15(e)
                            [] e.e = "vec" -> LawC15Vec(e)
                            [] e.e = "hand" -> LawC15Hand(e))
      [] Prop = "C16" -> GenCheck(e, GenOK(e)) /\ LawC16(e)
      [] Prop = "C17" -> GenCheck(e, GenOK(e)) /\ LawC17(e)
      [] Prop = "C18" -> (CASE e.e = "expr" -> GenCheck(e, GenOK(e)) /\ LawC18(e)
                            [] e.e = "eqtree" -> LawC18Eq(e)
                            [] e.e = "vec" -> LawC18Vec(e))
      [] Prop = "C19" -> LawC19(e)
      [] Prop = "C20" -> LawC20(e)
      [] Prop = "C21" -> GenCheck(e, GenOK21(e)) /\ LawC21(e)
      [] Prop = "C22" -> memo[e.k] \in {0, e.r}
      [] Prop = "C23" -> e.want = e.got
      [] Prop = "C25" -> LawC25(e)
      [] Prop = "C26" -> LawC26(e)
      [] Prop = "C27" -> LawC27(e)
      [] Prop = "C28" -> GenCheck(e, GenOK28(e)) /\ LawC28(e)
      [] Prop = "C29" -> LawC29(e)
      [] Prop = "C30" -> LawC30(e)

(* Known findings: the step deviates from the law in exactly the described way. *)
Deviation(e) ==
    CASE Prop = "C05" /\ e.e = "pair" /\ "C05-oversize" \in Known ->
            \A p \in {<<e.a, e.b, e.ab.cmp>>, <<e.b, e.a, e.ba.cmp>>} :
                LawC05Pair(p[1], p[2], p[3]) \/ DevC05Pair(p[1], p[2], p[3])
      [] Prop = "C06" /\ e.e = "pair" /\ "C06-threefold" \in Known ->
            \A p \in {<<e.a, e.b, e.ab.cmp>>, <<e.b, e.a, e.ba.cmp>>} :
                LawC06Pair(p[1], p[2], p[3]) \/ DevC06Pair(p[1], p[2], p[3])
      [] Prop = "C08" /\ e.e = "pair" /\ "C08-compatible" \in Known -> DevC08Pair(e)
      [] Prop = "C14" /\ e.e = "term" /\ "C14-compatible" \in Known -> DevC14Term(e)
      [] Prop = "C14" /\ e.e = "expr" /\ "C14-compatible" \in Known -> DevC14Expr(e)
      [] OTHER -> FALSE

MaxKey == IF Prop = "C22" THEN LET S == {Events[i].k : i \in 1 .. Len(Events)}
                               IN CHOOSE m \in S : \A x \in S : x <= m
          ELSE 0
TraceInit == l = 1 /\ memo = [k \in 1 .. MaxKey |-> 0]

Consume == l' = l + 1
Remember(e) == memo' = IF Prop = "C22" THEN [memo EXCEPT ![e.k] = e.r] ELSE memo

StepAllowed == /\ l <= Len(Events)
               /\ Law(Events[l]) = TRUE        \* (one value, no branching)
               /\ Consume /\ Remember(Events[l])
StepKnownDeviation == /\ l <= Len(Events)
                      /\ Law(Events[l]) = FALSE /\ Deviation(Events[l]) = TRUE
                      /\ PrintT(<<"DEVIATION", l>>)
                      /\ Consume /\ UNCHANGED memo
TraceNext == StepAllowed \/ StepKnownDeviation
TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* one state per consumed event, plus the initial one *)
TraceAccepted == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Events)>>)
====
