---- MODULE LawTerm ----
EXTENDS LawVersion, Term, Regex, Expr

(* the text is one term for the reader of expressions, too *)
SoleTerm(t) == /\ IsTermTok(t)
               /\ \/ \A i \in 1 .. Len(t) : t[i] \notin Special \cup {HatC, DollarC}
                  \/ Tokens(Enclosed(t)) = << <<LP>>, t, <<RP>> >>

SeveralTerms(t) == Cardinality({i \in 1 .. Len(Tokens(Enclosed(t))) : IsTermTok(Tokens(Enclosed(t))[i])}) > 1

Enclosing(t) == LET ts == Tokens(Enclosed(t)) IN Len(ts) > 1 /\ ts[2] = <<LP>>

SpecReports(e, m) ==
    /\ e.spec = e.t /\ e.raw = e.t
    /\ e.exact = TFof(m.exact)
    /\ e.ev = IF m.exact THEN <<"some", e.t>> ELSE <<"none">>
    /\ (e.vt = "ok" /\ SoleTerm(e.t)) => /\ e.vspec = e.t
                                         /\ (e.vexact = "T" => m.exact)
                                         \* (with a combinator's sign in it, it is read as a tree)
                                         /\ (\A i \in 1 .. Len(e.t) : e.t[i] \notin Special \cup {HatC, DollarC}) => e.vexact = TFof(m.exact)
    \* what is made of several terms, or stands in parentheses, is none of those that are exact
    /\ (e.vt = "ok" /\ (SeveralTerms(e.t) \/ Enclosing(e.t))) => e.vexact = "F"

AllAnswers(c, e, v) == /\ c.m = v /\ c.mv = v /\ c.mc = v
                       /\ (e.vt = "ok" /\ SoleTerm(e.t)) => c.vm = v

(* ---- C11: relational terms against the observed comparison ---------------- *)
\* a term is read if the version it names is
IsRead(e, k) == LET m == TermOf(e.t) IN
    (m.k = k /\ "svok" \in DOMAIN e /\ e.svok /\ e.sv = m.v) => e.ok = "ok"

LawC11(e) ==
    /\ IsRead(e, "rel")
    /\ e.ok = "ok" =>
       LET m == TermOf(e.t) IN
       /\ (m.k # "err" /\ m.k # "compat") => SpecReports(e, m)
       /\ (m.k = "rel" /\ "svok" \in DOMAIN e /\ e.svok) =>
             /\ e.sv = m.v
             /\ \A i \in 1 .. Len(e.cands) :
                   AllAnswers(e.cands[i], e, TFof(RelHolds(m.op, e.cands[i].cmp)))

(* ---- C12: wildcard terms against the observed prefix test ------------------ *)
LawC12(e) ==
    /\ IsRead(e, "pre")
    /\ TermOf(e.t).k = "always" => e.ok = "ok"
    /\ e.ok = "ok" =>
       LET m == TermOf(e.t) IN
       /\ m.k = "always" => \A i \in 1 .. Len(e.cands) : AllAnswers(e.cands[i], e, "T")
       /\ (m.k = "pre" /\ "svok" \in DOMAIN e /\ e.svok) =>
             /\ e.sv = m.v
             /\ \A i \in 1 .. Len(e.cands) :
                   AllAnswers(e.cands[i], e, IF m.neg THEN NotTF(e.cands[i].sw) ELSE e.cands[i].sw)
             \* extending a matched candidate keeps it matched
             /\ ~m.neg => \A i \in 1 .. Len(e.cands), j \in 1 .. Len(e.cands) :
                   (/\ e.cands[i].m = "T" /\ i # j
                    /\ Len(e.cands[i].t) < Len(e.cands[j].t)
                    /\ IsPrefix(Parse(e.cands[i].t).parts, Parse(e.cands[j].t).parts))
                   => e.cands[j].m = "T"

(* ---- C13: terms that match by text ----------------------------------------- *)
LawC13(e) ==
    /\ TermOf(e.t).k = "text" => e.ok = "ok"
    /\ (TermOf(e.t).k = "glob" /\ GlobPlain(e.t)) => e.ok = "ok"
    /\ (TermOf(e.t).k = "regex" /\ RxText(e.x.ast) = e.t /\ RxValid(e.x.ast)) => e.ok = "ok"
    /\ e.ok = "ok" =>
       LET m == TermOf(e.t) IN
       \A i \in 1 .. Len(e.cands) :
           LET c == e.cands[i] IN
           CASE m.k = "regex" -> (RxText(e.x.ast) = e.t /\ RxValid(e.x.ast))
                                 => AllAnswers(c, e, TFof(RxFound(e.x.ast, c.t)))
             [] m.k = "glob" -> (GlobPlain(e.t) /\ ~Has(c.t, Newline)) => AllAnswers(c, e, TFof(GlobMatch(e.t, c.t)))
             [] m.k = "text" -> AllAnswers(c, e, TFof(c.t = e.t))
             [] OTHER -> TRUE

(* ---- C14: reading and matching are total, bad terms are errors -------------- *)
TermStatus(e) ==                               \* "any": the model does not say
    LET m == TermOf(e.t) IN
    CASE m.k = "err" -> {"err"}
      [] m.k = "regex" -> IF "x" \in DOMAIN e /\ "ast" \in DOMAIN e.x /\ RxText(e.x.ast) = e.t
                          THEN IF RxValid(e.x.ast) THEN {"ok"} ELSE {"err"}
                          ELSE {"ok", "err"}
      [] m.k = "glob" -> IF GlobPlain(e.t) THEN {"ok"} ELSE {"ok", "err"}
      [] OTHER -> {"ok"}
Answered(c) == /\ c.m \in {"T", "F"} /\ c.mv \in {"T", "F"} /\ c.mc \in {"T", "F"}
               /\ "vm" \in DOMAIN c => c.vm \in {"T", "F"}
LawC14Read(e) ==
    /\ e.ok \in TermStatus(e)
    /\ e.vt \in {"ok", "err"}
    \* a text without combinators is the same as a term for the other reader
    /\ SoleTerm(e.t) => e.vt = e.ok
    /\ e.ok = "ok" => /\ e.exact \in {"T", "F"} /\ e.spec # <<-1>>
                      /\ e.raw # <<-1>> /\ e.ev # <<"panic">>
LawC14Term(e) ==
    /\ LawC14Read(e)
    /\ e.ok = "ok" => \A i \in 1 .. Len(e.cands) : Answered(e.cands[i])
(* NAMED DEVIATION (known finding C14-compatible): matching '~=' aborts. The other   *)
(* reader may find a '~=' term in a text that is something else as a single term.    *)
VtTerms(t) == IF \E i \in 1 .. Len(t) : t[i] \in Special \cup {HatC, DollarC}
              THEN TermsOf(Tokens(Enclosed(t))) ELSE <<t>>
DevC14Term(e) ==
    /\ LawC14Read(e)
    /\ LET own == TermOf(e.t).k = "compat"
           other == own \/ \E i \in 1 .. Len(VtTerms(e.t)) : TermOf(VtTerms(e.t)[i]).k = "compat"
       IN /\ own \/ other
          /\ \A i \in 1 .. Len(e.cands) :
                LET c == e.cands[i] IN
                /\ IF own THEN c.m = "P" /\ c.mv = "P" /\ c.mc = "P"
                   ELSE c.m \in {"T", "F"} /\ c.mv \in {"T", "F"} /\ c.mc \in {"T", "F"}
                /\ "vm" \in DOMAIN c => c.vm \in {"T", "F"} \/ (other /\ c.vm = "P")
LawC14Expr(e) ==
    /\ e.tf \in {"ok", "err"} /\ e.vt \in {"ok", "err"}
    /\ \A i \in 1 .. Len(e.terms) : e.terms[i].ok \in {"ok", "err"}
    /\ \A i \in 1 .. Len(e.cands) :
          LET c == e.cands[i] IN
          /\ "m" \in DOMAIN c => c.m \in {"T", "F"} /\ c.mv \in {"T", "F"}
          /\ "vm" \in DOMAIN c => c.vm \in {"T", "F"} /\ c.vmv \in {"T", "F"}
          /\ \A j \in 1 .. Len(c.tv) : c.tv[j] # "P"
DevC14Expr(e) ==
    /\ e.tf \in {"ok", "err"} /\ e.vt \in {"ok", "err"}
    /\ \E i \in 1 .. Len(e.terms) : TermOf(e.terms[i].t).k = "compat"
    /\ \A i \in 1 .. Len(e.cands) : \A j \in 1 .. Len(e.cands[i].tv) :
          e.cands[i].tv[j] = "P" => TermOf(e.terms[j].t).k = "compat"
LawC14Vec(e) == e.ok \in {"ok", "err"} /\
    /\ \A i \in 1 .. Len(e.each) : e.each[i] \in {"ok", "err"}
    \* a list is read exactly when it starts with a combinator and all its terms are read
    /\ e.ok = (IF Len(e.items) >= 1 /\ e.items[1] \in {<<44>>, <<124>>}
                  /\ \A i \in 1 .. Len(e.each) : e.each[i] = "ok"
               THEN "ok" ELSE "err")
    /\ e.ok = "ok" => \A i \in 1 .. Len(e.cands) : e.cands[i].m \in {"T", "F"} /\ e.cands[i].mv \in {"T", "F"}

(* ---- C25: versions made by a caller's parser ---------------------------------- *)
(* a list the built-in reader might deliver: not empty, an epoch or the empty      *)
(* component only in front                                                         *)
WellFormedList(p) == Len(p) > 0 /\ \A i \in 1 .. Len(p) :
    /\ p[i][1] \in {"E", "I", "T", "L", "Z"}
    /\ p[i][1] = "E" => i = 1
    /\ p[i][1] = "Z" => Len(p) = 1
    /\ p[i][1] \in {"T", "L"} => p[i][2] # <<>>
MadeTerm(term, t, p) ==
    LET m == TermOf(term) IN
    CASE m.k = "always" -> "T"
      [] m.k = "rel" -> TFof(RelHolds(m.op, Cmp(p, Parse(m.v).parts)))
      [] m.k = "pre" -> TFof(StartsWith(p, Parse(m.v).parts) # m.neg)
      [] m.k = "glob" -> TFof(GlobMatch(term, t))
      [] m.k = "text" -> TFof(t = term)
LawC25(e) ==
    LET N == 1 .. Len(e.vs)
        \* what the parser delivered, whatever the version holds of it
        P(i) == e.given[i].p
        ok == [i \in N |-> WellFormedList(P(i))]
    IN
    /\ \A i \in N, j \in N : (ok[i] /\ ok[j]) =>
          LET c == Cmp(P(i), P(j)) s == StartsWith(P(i), P(j)) IN
          /\ e.m[i][j] = c /\ e.pc[i][j] = c /\ e.eq[i][j] = TFof(c = 0)
          /\ e.sw[i][j] = TFof(s)
          /\ \A o \in 1 .. 8 : e.ops[i][j][o] = TFof(OpHolds(OpSeq[o], c, s))
          /\ LET k == CmpPart(P(i)[Len(P(i))], P(j)[Len(P(j))]) IN e.pm[i][j] = k /\ e.pe[i][j] = TFof(k = 0)
    /\ \A i \in N, j \in 1 .. Len(e.texts) : (ok[i] /\ Accepted(e.texts[j])) =>
          LET q == Parse(e.texts[j]).parts c == Cmp(P(i), q) s == StartsWith(P(i), q) IN
          /\ e.cs[i][j] = c
          /\ \A o \in 1 .. 8 : e.cso[i][j][o] = TFof(OpHolds(OpSeq[o], c, s))
    /\ \A i \in N, j \in 1 .. Len(e.terms) : ok[i] => e.tm[i][j] = MadeTerm(e.terms[j], e.given[i].t, P(i))
    \* a copy is the same version
    /\ \A i \in N : LET c == e.copies[i] IN
          /\ c.t = e.given[i].t /\ c.p = e.vs[i].p /\ c.n = Len(e.vs[i].p)
          /\ ok[i] => \A j \in N : ok[j] => c.m[j] = e.m[i][j] /\ c.eq[j] = e.eq[j][i]
          /\ ok[i] => c.tm = e.tm[i]
====
