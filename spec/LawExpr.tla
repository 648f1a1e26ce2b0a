---- MODULE LawExpr ----
EXTENDS LawTerm

(* the generator's list of terms has to be the tokens of the text; a wrong  *)
(* list is an error of the generator, not of the code                       *)
TermList(e) == [i \in 1 .. Len(e.terms) |-> e.terms[i].t]
GenOK(e) == TermsOf(Tokens(Enclosed(e.t))) = TermList(e)

HasComb(t) == \E i \in 1 .. Len(t) : t[i] \in {LP, RP, Bar, Comma, HatC, DollarC}

(* ---- C15 -------------------------------------------------------------------- *)
AllTF(s) == \A i \in 1 .. Len(s) : s[i] \in {"T", "F"}
LawC15(e) ==
    LET r == ParseExpr(e.t) IN
    (r.ok /\ (e.tf = "ok" \/ e.vt = "ok")) =>
    \A i \in 1 .. Len(e.cands) :
        LET c == e.cands[i] IN
        AllTF(c.tv) =>
        LET v == TFof(Eval(r.n, [j \in 1 .. Len(c.tv) |-> c.tv[j] = "T"])) IN
        /\ e.tf = "ok" => c.m = v /\ c.mv = v
        \* (that reader takes a text without combinators as it is, spaces included)
        /\ (e.vt = "ok" /\ (HasComb(e.t) \/ Trim(e.t) = e.t)) => c.vm = v /\ c.vmv = v
LawC15Vec(e) ==
    e.ok = "ok" =>
    \A i \in 1 .. Len(e.cands) :
        LET c == e.cands[i] IN
        AllTF(c.tv) =>
        LET v == TFof(IF e.items[1] = <<Comma>> THEN \A j \in 1 .. Len(c.tv) : c.tv[j] = "T"
                      ELSE \E j \in 1 .. Len(c.tv) : c.tv[j] = "T")
        IN c.m = v /\ c.mv = v
LawC15Hand(e) ==
    \A i \in 1 .. Len(e.cands) :
        LET c == e.cands[i] v == TFof(Eval(e.a, [j \in 1 .. Len(c.tv) |-> c.tv[j] = "T"])) IN
        /\ Leaves(e.a) = e.terms
        /\ AllTF(c.tv) => c.m = v /\ c.mv = v

(* ---- C16 -------------------------------------------------------------------- *)
LawC16(e) ==
    LET r == ParseExpr(e.t)
        good == r.ok /\ \A i \in 1 .. Len(e.terms) : e.terms[i].ok = "ok"
    IN /\ e.tf = (IF good THEN "ok" ELSE "err")
       /\ HasComb(e.t) => e.vt = e.tf

(* ---- C17 -------------------------------------------------------------------- *)
LawC17(e) ==
    (e.tf = "ok" /\ ParseExpr(e.t).ok) =>
    /\ e.ren = "ok"
    /\ e.rt = Render(e.tree)
    /\ Leaves(e.tree) = TermList(e)
    /\ e.gs = e.rt /\ e.raw = e.rt
    /\ e.rr = "ok" /\ e.req = "T" /\ e.rne = "F" /\ e.rtree = e.tree /\ e.rrt = e.rt
    /\ \A i \in 1 .. Len(e.cands) : e.cands[i].rm = e.cands[i].mv
    /\ (e.vt = "ok" /\ HasComb(e.t)) => e.vgs = e.rt

(* ---- C18 -------------------------------------------------------------------- *)
LawC18(e) ==
    LET r == ParseExpr(e.t) IN
    (e.tf = "ok" /\ r.ok) =>
    /\ Canonical(e.tree)
    /\ e.tree = TreeOf(r.n)
    /\ (e.vt = "ok" /\ HasComb(e.t)) => e.vtree = e.tree
    /\ e.dbg > 0 /\ e.dbg2 > 0 /\ e.same = "T"
LawC18Eq(e) ==
    LET same == e.a = e.b IN
    /\ e.eq = TFof(same) /\ e.ne = TFof(~same) /\ e.qe = TFof(same) /\ e.en = TFof(~same)
    /\ e.teq = TFof(same) /\ e.aa = "T"
    /\ e.dbg > 0
LawC18Vec(e) == (e.ok = "ok") => e.tree = Node(IF e.items[1] = <<Comma>> THEN "And" ELSE "Or", e.trees)
====
