---- MODULE LawConvert ----
EXTENDS Text

\* (as in Convert, which keeps it in step with the conversions)
RECURSIVE ReplayConv(_, _, _)
ReplayConv(k, w, os) == IF os = <<>> THEN <<>>
                        ELSE CASE Head(os) = "wrap" -> <<<<"ok", k, TRUE>>>> \o ReplayConv(k, TRUE, Tail(os))
                               [] Head(os) = "copy" -> <<<<"ok", k, w>>>> \o ReplayConv(k, w, Tail(os))
                               [] OTHER -> LET good == Head(os) = k IN
                                           <<<<IF good THEN "ok" ELSE "err", k, ~good>>>> \o ReplayConv(k, ~good, Tail(os))
LawC30Conv(e) ==
    LET o == e.obs[1]
        r == ReplayConv(e.kind, FALSE, e.ops) IN
    /\ o.raw = o.spec /\ o.spec # <<-1>>
    /\ e.kind = "term" => o.spec = e.t
    /\ o.exact \in {"T", "F"}
    /\ o.ev = IF o.exact = "T" THEN <<"some", o.spec>> ELSE <<"none">>
    /\ Len(e.obs) = Len(e.ops) + 1
    /\ \A i \in 1 .. Len(e.ops) :
          LET x == e.obs[i + 1] IN
          /\ x.res = r[i]
          /\ x.spec = o.spec /\ x.raw = o.raw /\ x.exact = o.exact /\ x.ev = o.ev /\ x.m = o.m
CombOf(t) == CASE t = <<44>> -> "And" [] t = <<124>> -> "Or" [] OTHER -> "None"
LawC30Comb(e) == /\ e.c = CombOf(e.t)
                 /\ e.eq = <<e.c = "And", e.c = "Or", e.c = "None", TRUE>>
LawC30Eq(e) ==
    LET same == IF e.a = e.b THEN "T" ELSE "F"
        other == IF e.a = e.b THEN "F" ELSE "T" IN
    /\ e.eq = <<same, same, same, same>> /\ e.ne = <<other, other, other, other>>
    /\ e.self = <<"T", "T", "F", "F">>
    /\ \A i \in 1 .. Len(e.mixed) : e.mixed[i] = "F"
LawC30(e) == CASE e.e = "conv" -> LawC30Conv(e) [] e.e = "comb" -> LawC30Comb(e) [] e.e = "eqterm" -> LawC30Eq(e)
====
