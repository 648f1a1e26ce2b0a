---- MODULE LawIndex ----
EXTENDS Index

(* e.file: "json" (the file holds the serialised document), "cut", "trailing",*)
(* "nonutf8", "missing", "directory", "syntax": the file does not hold one     *)
FileStatus(e) == IF e.file = "json" /\ DocOK(e.doc) THEN "ok" ELSE "err"
LawC19(e) == (e.ok = "ok" /\ FileStatus(e) = "ok") => IndexIs(e.doc, e.r)
LawC20(e) == e.ok = FileStatus(e)
(* presentations of documents with one meaning *)
LawC21(e) ==
    \A i \in 2 .. Len(e.ok) :
        /\ e.ok[i] = e.ok[1] /\ e.r[i] = e.r[1]
GenOK21(e) == \A i \in 2 .. Len(e.x.docs) : Meaning(e.x.docs[i]) = Meaning(e.x.docs[1])
(* one document through every source, and its records on their own *)
SrcWhole(p, n) == p # <<>> /\ p[Len(p)] = 99
                  /\ FoldLeft(LAMBDA a, k : IF k \in {98, 99} THEN a ELSE a + k, 0, p) = n
LawC29(e) ==
    /\ e.ok[1] \in {"ok", "err"}
    /\ \A i \in 2 .. Len(e.ok) : e.ok[i] = e.ok[1] /\ e.r[i] = e.r[1]
    /\ \A i \in 1 .. Len(e.plans) :
          /\ e.pok[i] = IF SrcWhole(e.plans[i], e.n) THEN e.ok[1] ELSE "err"
          /\ SrcWhole(e.plans[i], e.n) => e.pr[i] = e.r[1]
    /\ \A i \in 1 .. Len(e.recs) :
          /\ e.rok[i] = IF RecordOK(e.recs[i]) THEN "ok" ELSE "err"
          /\ e.rok[i] = "ok" => e.rr[i] = RecordOf(e.recs[i])
====
