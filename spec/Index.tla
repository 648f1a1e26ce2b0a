---- MODULE Index ----
(***************************************************************************)
(* Package index documents. A JSON value is a tuple:                       *)
(*   <<"obj", <<<<key, value>>, ...>>>>  <<"arr", s>>  <<"str", text>>      *)
(*   <<"int", negative, digits>>  <<"frac", text>>  <<"bool", b>>  <<"null">>*)
(*   <<"deep", n, brackets>>: arrays and objects nested n times              *)
(* A loaded index is [ok |-> TRUE, ...] or NoIndex.                        *)
(***************************************************************************)
EXTENDS Version

NoIndex == [ok |-> FALSE]
Key(s) == s
\* field names as texts
K_info == <<105,110,102,111>>
K_subdir == <<115,117,98,100,105,114>>
K_packages == <<112,97,99,107,97,103,101,115>>
K_conda == <<112,97,99,107,97,103,101,115,46,99,111,110,100,97>>
K_version == <<118,101,114,115,105,111,110>>
K_rv == <<114,101,112,111,100,97,116,97,95,118,101,114,115,105,111,110>>
K_removed == <<114,101,109,111,118,101,100>>
K_build == <<98,117,105,108,100>>
K_bn == <<98,117,105,108,100,95,110,117,109,98,101,114>>
K_depends == <<100,101,112,101,110,100,115>>
K_md5 == <<109,100,53>>
K_name == <<110,97,109,101>>
K_sha256 == <<115,104,97,50,53,54>>
K_size == <<115,105,122,101>>
K_timestamp == <<116,105,109,101,115,116,97,109,112>>

RecordFields == {K_build, K_bn, K_depends, K_md5, K_name, K_sha256, K_size, K_timestamp, K_version}
RootFields == {K_info, K_packages, K_conda, K_rv, K_removed}

IsObj(v) == v[1] = "obj"
IsStr(v) == v[1] = "str"
IsStrArr(v) == v[1] = "arr" /\ \A i \in 1 .. Len(v[2]) : IsStr(v[2][i])
IsUInt(v, max) == v[1] = "int" /\ ~v[2] /\ CmpNum(v[3], max) <= 0
Fld(o, key) == LET i == CHOOSE i \in 1 .. Len(o[2]) : o[2][i][1] = key IN o[2][i][2]
Occurs(o, key) == Cardinality({i \in 1 .. Len(o[2]) : o[2][i][1] = key})
OnceEach(o, fields) == \A f \in fields : Occurs(o, f) = 1

RecordOK(v) ==
    /\ IsObj(v) /\ OnceEach(v, RecordFields)
    /\ \A f \in {K_build, K_md5, K_name, K_sha256, K_version} : IsStr(Fld(v, f))
    /\ Accepted(Fld(v, K_version)[2])
    /\ IsStrArr(Fld(v, K_depends))
    /\ IsUInt(Fld(v, K_bn), MaxU16)
    /\ IsUInt(Fld(v, K_size), MaxU64) /\ IsUInt(Fld(v, K_timestamp), MaxU64)
SectionOK(v) == IsObj(v) /\ \A i \in 1 .. Len(v[2]) : RecordOK(v[2][i][2])
DocOK(d) ==
    /\ IsObj(d) /\ OnceEach(d, RootFields)
    /\ IsObj(Fld(d, K_info)) /\ OnceEach(Fld(d, K_info), {K_subdir}) /\ IsStr(Fld(Fld(d, K_info), K_subdir))
    /\ SectionOK(Fld(d, K_packages)) /\ SectionOK(Fld(d, K_conda))
    /\ IsUInt(Fld(d, K_rv), MaxU8)
    /\ IsStrArr(Fld(d, K_removed))

Texts(a) == [i \in 1 .. Len(a[2]) |-> a[2][i][2]]
RecordOf(v) ==
    LET ver == Fld(v, K_version)[2] IN
    [build |-> Fld(v, K_build)[2], bn |-> Norm(Fld(v, K_bn)[3]), depends |-> Texts(Fld(v, K_depends)),
     md5 |-> Fld(v, K_md5)[2], name |-> Fld(v, K_name)[2], sha256 |-> Fld(v, K_sha256)[2],
     size |-> Norm(Fld(v, K_size)[3]), timestamp |-> Norm(Fld(v, K_timestamp)[3]),
     version |-> <<ver, Parse(ver).parts>>]
(* the last entry of a file name counts *)
LastOf(o, key) == LET S == {i \in 1 .. Len(o[2]) : o[2][i][1] = key}
                  IN CHOOSE i \in S : \A j \in S : j <= i
KeysOf(o) == {o[2][i][1] : i \in 1 .. Len(o[2])}
SectionIs(o, obs) ==
    /\ Len(obs) = Cardinality(KeysOf(o))
    /\ \A i \in 1 .. Len(obs) :
          /\ obs[i][1] \in KeysOf(o)
          /\ obs[i][2] = RecordOf(o[2][LastOf(o, obs[i][1])][2])
    /\ Cardinality({obs[i][1] : i \in 1 .. Len(obs)}) = Len(obs)
(* the observed index r is what document d says *)
IndexIs(d, r) ==
    /\ r.subdir = Fld(Fld(d, K_info), K_subdir)[2]
    /\ r.rv = Norm(Fld(d, K_rv)[3])
    /\ r.removed = Texts(Fld(d, K_removed))
    /\ SectionIs(Fld(d, K_packages), r.packages)
    /\ SectionIs(Fld(d, K_conda), r.conda)

(* what a document means, for comparing presentations *)
SectionMap(o) == {<<k, RecordOf(o[2][LastOf(o, k)][2])>> : k \in KeysOf(o)}
Meaning(d) == IF ~DocOK(d) THEN NoIndex
              ELSE [ok |-> TRUE, subdir |-> Fld(Fld(d, K_info), K_subdir)[2], rv |-> Norm(Fld(d, K_rv)[3]),
                    removed |-> Texts(Fld(d, K_removed)),
                    packages |-> SectionMap(Fld(d, K_packages)), conda |-> SectionMap(Fld(d, K_conda))]
====
