---- MODULE LawShow ----
EXTENDS LawExpr, Show

(* ---- C26: everything can be shown, as what it is ---------------------------- *)
Answer(s) == s # <<-1>>
Says(s) == s # <<-1>> /\ s # <<>>
NoBreaks(p) == \A i \in 1 .. Len(p) : p[i][1] \in {"T", "L"} => ~Has(p[i][2], NL)
(* (a component outside the kinds of the specification is for C02 to judge) *)
Kinds(p) == \A i \in 1 .. Len(p) : p[i][1] \in {"E", "I", "T", "L", "Z"}
ShownVersion(e) ==
    /\ e.disp = e.text /\ e.tos = e.text
    /\ Answer(e.dbg) /\ Answer(e.dbg2)
    /\ \A i \in 1 .. Len(e.parts) : Answer(e.pd[i]) /\ Answer(e.pb[i])
    /\ Kinds(e.parts) =>
          /\ e.dbg = VersionText(e.parts)
          /\ NoBreaks(e.parts) => e.dbg2 = TallVersionText(e.parts)
          /\ \A i \in 1 .. Len(e.parts) : e.pd[i] = PartText(e.parts[i]) /\ e.pb[i] = e.pd[i]
RECURSIVE PrintableTree(_)
PrintableTree(n) == IF n.k = "t" THEN Printable(n.t) ELSE \A i \in 1 .. Len(n.p) : PrintableTree(n.p[i])
ShownNode(n, d, d2) ==
    /\ Answer(d) /\ Answer(d2)
    /\ PrintableTree(n) => d = NodeText(n) /\ d2 = TallNodeText(n)
Messages(s) == \A i \in 1 .. Len(s) : Says(s[i])
LawC26(e) ==
    CASE e.e = "showindex" -> e.ok # "panic" => \A i \in 1 .. Len(e.len) : e.len[i] > 0
      [] e.e = "showtree" -> ShownNode(e.node, e.vdbg, e.vdbg2)
      [] e.e = "show" ->
            /\ e.ok = "ok" => ShownVersion(e)
            /\ e.ok = "err" => Messages(e.msg)
            /\ e.tf = "ok" => ShownNode(e.tree, e.tdbg, e.tdbg2)
            /\ e.tf = "err" => Messages(e.tmsg)
            /\ e.vt = "ok" => ShownNode(e.node, e.vdbg, e.vdbg2)
            /\ e.vt = "err" => Messages(e.vmsg)

(* ---- C27: versions of an index count like those read from their texts --------- *)
LawC27(e) ==
    /\ e.ri = e.rt /\ e.it = e.rt /\ e.ti = e.rt /\ e.is = e.rt
    /\ e.oi = e.ot
    /\ e.si = e.st /\ e.sx = e.st
    /\ e.mi = e.mt /\ e.mc = e.mt
    /\ \A k \in 1 .. Len(e.exprs) :
          LET left == {i \in 1 .. Len(e.ts) : e.mi[k][i] = "T"} b == e.best[k]
              \* (a highest one is defined where the comparisons have no cycle: C04)
              sound == \A x \in left, y \in left, z \in left : (e.ri[x][y] <= 0 /\ e.ri[y][z] <= 0) => e.ri[x][z] <= 0
          IN /\ b = 0 <=> left = {}
             /\ (left # {} /\ sound) => b \in left /\ \A i \in left : e.ri[i][b] <= 0

(* ---- C28: constraints by order select by order ---------------------------------- *)
Opposed(o) == CASE o = "Eq" -> "Ne" [] o = "Ne" -> "Eq" [] o = "Lt" -> "Ge" [] o = "Ge" -> "Lt" [] o = "Gt" -> "Le" [] o = "Le" -> "Gt"
RECURSIVE DualOf(_, _)
DualOf(n, m) ==      \* m is the tree of the inverted operators with the combinators exchanged
    IF n.k = "t" \/ m.k = "t"
    THEN n.k = m.k /\ LET x == TermOf(n.t) y == TermOf(m.t) IN x.k = "rel" /\ y.k = "rel" /\ y.op = Opposed(x.op) /\ y.v = x.v
    ELSE n.c # m.c /\ Len(n.p) = Len(m.p) /\ \A i \in 1 .. Len(n.p) : DualOf(n.p[i], m.p[i])
GenOK28(e) ==
    LET x == ParseExpr(e.t) y == ParseExpr(e.d) IN
    /\ x.ok /\ y.ok /\ DualOf(x.n, y.n)
    (* a term alone is not an expression that white space may surround *)
    /\ x.n.k = "t" => x.n.t = e.t /\ y.n.t = e.d
RECURSIVE OnlyAnd(_)
OnlyAnd(n) == n.k = "t" \/ (n.c = "And" /\ \A i \in 1 .. Len(n.p) : OnlyAnd(n.p[i]))
IsRange(t) == LET n == ParseExpr(t).n ls == Leaves(n) IN OnlyAnd(n) /\ \A i \in 1 .. Len(ls) : TermOf(ls[i]).op # "Ne"
LawC28(e) ==
    LET N == 1 .. Len(e.ts) IN
    /\ \A i \in N : e.a[i] \in {"T", "F"}
    /\ \A i \in N, j \in N : e.m[i][j] = 0 => e.a[i] = e.a[j]
    /\ \A i \in N : e.b[i] = NotTF(e.a[i])
    /\ IsRange(e.t) => \A i \in N, j \in N : (e.a[i] = "F" /\ e.a[j] = "T" /\ e.m[j][i] <= 0) =>
                          \A k \in N : e.m[i][k] <= 0 => e.a[k] = "F"
====
