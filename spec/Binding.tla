---- MODULE Binding ----
(***************************************************************************)
(* Says for each event on its own whether the law allows it. Used to see    *)
(* what the laws depend on: tools/binding.py alters what was observed.      *)
(***************************************************************************)
EXTENDS Trace

BindingNext == /\ l <= Len(Events)
               /\ PrintT(<<"VERDICT", l, Law(Events[l])>>)
               /\ Consume /\ UNCHANGED memo
BindingSpec == TraceInit /\ [][BindingNext]_tvars
====
