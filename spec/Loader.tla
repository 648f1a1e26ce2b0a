---- MODULE Loader ----
(***************************************************************************)
(* Loading an index as a stream: the environment types the entries of an    *)
(* object one after another (the whole document, one record, or one section *)
(* of it; the rest of the document is fixed and right), the loader keeps     *)
(* what it has seen and stops at the first mistake; only at the end of the  *)
(* object is it known whether something is missing. Checked against DocOK   *)
(* and Meaning, which look at the whole document.                           *)
(***************************************************************************)
EXTENDS Index, TLC, Json

CONSTANTS Level,        \* "root", "record", "section"
          Faults,       \* how many irregularities the environment may use
          Emit

VARIABLES turn,         \* the order of the fields is rotated by this
          at,           \* fields typed or left out so far
          entries,      \* what was typed
          faults,
          seen,         \* the loader: field -> value, for the fields seen; for a section name -> record
          status        \* "read"; "dead": refused, whatever follows; "ok", "err": ended
vars == <<turn, at, entries, faults, seen, status>>

Str(t) == <<"str", t>>
Num(d) == <<"int", FALSE, d>>
Obj(s) == <<"obj", s>>
Arr(s) == <<"arr", s>>
T(n) == <<96 + n>>                              \* a, b, ...
RecFields == << K_build, K_bn, K_depends, K_md5, K_name, K_sha256, K_size, K_timestamp, K_version >>
DocFields == << K_info, K_packages, K_conda, K_rv, K_removed >>
Fields == IF Level = "root" THEN DocFields ELSE RecFields
TypeOf(f) == CASE f \in {K_build, K_md5, K_name, K_sha256, K_subdir} -> "text"
               [] f = K_version -> "version"
               [] f \in {K_depends, K_removed} -> "texts"
               [] f = K_bn -> "u16" [] f \in {K_size, K_timestamp} -> "u64" [] f = K_rv -> "u8"
               [] f = K_info -> "info"
               [] f \in {K_packages, K_conda} -> "section"

OneTwoThree == <<49, 46, 50>>
GoodRecord(n) == Obj(<< <<K_build, Str(T(n))>>, <<K_bn, Num(<<48 + n>>)>>, <<K_depends, Arr(<<Str(T(n))>>)>>, <<K_md5, Str(T(1))>>,
                        <<K_name, Str(T(2))>>, <<K_sha256, Str(T(3))>>, <<K_size, Num(<<49>>)>>, <<K_timestamp, Num(<<48>>)>>,
                        <<K_version, Str(OneTwoThree)>> >>)
BadRecord == Obj(Tail(GoodRecord(1)[2]))
Good(ty) == CASE ty = "text" -> { Str(T(4)), Str(<<>>) }
              [] ty = "version" -> { Str(OneTwoThree), Str(<<49, 33, 49, 43, 97>>) }
              [] ty = "texts" -> { Arr(<<>>), Arr(<<Str(T(5)), Str(T(5))>>) }
              [] ty = "u16" -> { Num(MaxU16), Num(<<48>>) }
              [] ty = "u64" -> { Num(MaxU64), Num(<<55>>) }
              [] ty = "u8" -> { Num(MaxU8), Num(<<49>>) }
              [] ty = "info" -> { Obj(<< <<K_subdir, Str(T(6))>> >>), Obj(<< <<T(7), <<"null">>>>, <<K_subdir, Str(T(6))>> >>) }
              [] ty = "section" -> { Obj(<<>>), Obj(<< <<T(1), GoodRecord(1)>> >>) }
Common == { <<"null">>, <<"bool", TRUE>>, <<"frac", <<49, 46, 48>>>>, <<"int", TRUE, <<49>>>> }
Bad(ty) == Common \cup
           (CASE ty = "text" -> { Num(<<49>>), Arr(<<>>), Obj(<<>>) }
              [] ty = "version" -> { Str(<<49, 33, 50, 33, 51>>), Str(<<97, 33, 49>>), Str(<<49, 43, 50, 43, 51>>), Num(<<49>>), Arr(<<>>) }
              [] ty = "texts" -> { Str(T(1)), Obj(<<>>), Arr(<<Str(T(1)), Num(<<49>>)>>), Arr(<<<<"null">>>>) }
              [] ty = "u16" -> { Num(<<54, 53, 53, 51, 54>>), Str(<<49>>), Arr(<<>>) }
              [] ty = "u64" -> { Num(<<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,54>>), Str(<<49>>), Obj(<<>>) }
              [] ty = "u8" -> { Num(<<50, 53, 54>>), Str(<<49>>), Arr(<<>>) }
              [] ty = "info" -> { Str(T(1)), Obj(<<>>), Obj(<< <<K_subdir, Num(<<49>>)>> >>),
                                  Obj(<< <<K_subdir, Str(T(1))>>, <<K_subdir, Str(T(1))>> >>) }
              [] ty = "section" -> { Str(T(1)), Obj(<< <<T(1), BadRecord>> >>),
                                     Obj(<< <<T(1), BadRecord>>, <<T(1), GoodRecord(1)>> >>), Obj(<< <<T(1), <<"null">>>> >>) })
Small(m) == [t \in {"u8", "u16", "u64"} |-> IF t = "u8" THEN MaxU8 ELSE IF t = "u16" THEN MaxU16 ELSE MaxU64][m]

(* does the loader take value v where it expects a ty? *)
RECURSIVE Takes(_, _), TakesObject(_, _)
TakesObject(v, need) ==
    /\ IsObj(v)
    /\ LET r == FoldLeft(LAMBDA acc, en :
                  IF ~acc.ok \/ en[1] \notin need THEN acc
                  ELSE [ok |-> en[1] \notin acc.seen /\ Takes(TypeOf(en[1]), en[2]), seen |-> acc.seen \cup {en[1]}],
                [ok |-> TRUE, seen |-> {}], v[2])
       IN r.ok /\ r.seen = need
Takes(ty, v) ==
    CASE ty = "text" -> v[1] = "str"
      [] ty = "version" -> v[1] = "str" /\ Accepted(v[2])
      [] ty = "texts" -> v[1] = "arr" /\ \A i \in DOMAIN v[2] : v[2][i][1] = "str"
      [] ty \in {"u8", "u16", "u64"} -> v[1] = "int" /\ ~v[2] /\ CmpNum(v[3], Small(ty)) <= 0
      [] ty = "info" -> TakesObject(v, {K_subdir})
      [] ty = "record" -> TakesObject(v, RecordFields)
      [] ty = "section" -> v[1] = "obj" /\ \A i \in DOMAIN v[2] : Takes("record", v[2][i][2])

Init == /\ turn \in (IF Level = "section" THEN {0} ELSE 0 .. Len(Fields) - 1)
        /\ at = 0 /\ entries = <<>> /\ faults = 0 /\ seen = <<>> /\ status = "read"

NamesSeen == { seen[i][1] : i \in DOMAIN seen }
TypedEntry(f, v) == entries' = Append(entries, <<f, v>>)
(* the loader at one entry *)
LoadField(f, v) ==
    IF status = "dead" \/ f \notin ToSet(Fields) THEN UNCHANGED <<seen, status>>
    ELSE IF f \in NamesSeen \/ ~Takes(TypeOf(f), v) THEN status' = "dead" /\ UNCHANGED seen
    ELSE seen' = Append(seen, <<f, v>>) /\ UNCHANGED status
LoadRecord(name, v) ==
    IF status = "dead" \/ ~Takes("record", v) THEN status' = "dead" /\ UNCHANGED seen
    ELSE /\ UNCHANGED status
         /\ seen' = IF name \in NamesSeen THEN [i \in DOMAIN seen |-> IF seen[i][1] = name THEN <<name, v>> ELSE seen[i]]
                    ELSE Append(seen, <<name, v>>)

Field(i) == Fields[((i - 1 + turn) % Len(Fields)) + 1]
Regular == /\ at < Len(Fields) /\ at' = at + 1
           /\ \E v \in Good(TypeOf(Field(at + 1))) :
                /\ (v = CHOOSE w \in Good(TypeOf(Field(at + 1))) : TRUE) \/ faults < Faults
                /\ TypedEntry(Field(at + 1), v) /\ LoadField(Field(at + 1), v)
           /\ UNCHANGED faults
Irregular == faults < Faults /\ faults' = faults + 1
Wrong == /\ Irregular /\ at < Len(Fields) /\ at' = at + 1
         /\ \E v \in Bad(TypeOf(Field(at + 1))) : TypedEntry(Field(at + 1), v) /\ LoadField(Field(at + 1), v)
Missing == /\ Irregular /\ at < Len(Fields) /\ at' = at + 1 /\ UNCHANGED <<entries, seen, status>>
Again == /\ Irregular /\ at > 0 /\ UNCHANGED at
         /\ \E v \in Good(TypeOf(Field(at))) : TypedEntry(Field(at), v) /\ LoadField(Field(at), v)
Extra == /\ Irregular /\ UNCHANGED at
         /\ \E v \in { <<"null">>, Num(<<49>>), Obj(<< <<T(1), Arr(<<>>)>> >>) } :
               TypedEntry(<<120>>, v) /\ LoadField(<<120>>, v)
Record == /\ Level = "section" /\ at < 3 /\ at' = at + 1 /\ UNCHANGED faults
          /\ \E name \in {T(1), T(2)}, v \in {GoodRecord(1), GoodRecord(2), BadRecord, <<"null">>} :
                TypedEntry(name, v) /\ LoadRecord(name, v)
End == /\ status' = (IF status = "dead" THEN "err" ELSE IF Level = "section" \/ NamesSeen = ToSet(Fields) THEN "ok" ELSE "err")
       /\ UNCHANGED <<at, entries, faults, seen>>
Next == /\ status \in {"read", "dead"} /\ UNCHANGED turn
        /\ (IF Level = "section" THEN Record ELSE Regular \/ Wrong \/ Missing \/ Again \/ Extra) \/ (End /\ (at = Len(Fields) \/ Level = "section"))
Spec == Init /\ [][Next]_vars

(* ---- the whole document ------------------------------------------------------------ *)
Around(rec, sec) == Obj(<< <<K_info, Obj(<< <<K_subdir, Str(T(9))>> >>)>>, <<K_packages, sec>>, <<K_conda, Obj(<< <<T(8), rec>> >>)>>,
                           <<K_removed, Arr(<<>>)>>, <<K_rv, Num(<<49>>)>> >>)
Doc == CASE Level = "root" -> Obj(entries)
         [] Level = "record" -> Around(Obj(entries), Obj(<<>>))
         [] Level = "section" -> Around(GoodRecord(3), Obj(entries))
Finished == status \in {"ok", "err"}
Verdict == Finished => (status = "ok") = DocOK(Doc)
(* stopping at the first mistake is right: nothing that follows mends it *)
NoMending == status = "dead" => ~DocOK(Doc)
Val(f) == LET i == CHOOSE i \in DOMAIN seen : seen[i][1] = f IN seen[i][2]
LoadedMeaning == status = "ok" =>
    CASE Level = "root" -> Meaning(Doc) =
            [ok |-> TRUE, subdir |-> Fld(Val(K_info), K_subdir)[2], rv |-> Norm(Val(K_rv)[3]), removed |-> Texts(Val(K_removed)),
             packages |-> SectionMap(Val(K_packages)), conda |-> SectionMap(Val(K_conda))]
      [] Level = "record" -> Meaning(Doc).conda = { <<T(8), RecordOf(Obj(seen))>> }
      [] Level = "section" -> Meaning(Doc).packages = { <<seen[i][1], RecordOf(seen[i][2])>> : i \in DOMAIN seen }
(* the order of fields has no influence *)
OrderAside == (status = "ok" /\ Level # "section") => Meaning(Doc) = Meaning(
    CASE Level = "root" -> Obj(Reverse(entries)) [] Level = "record" -> Around(Obj(Reverse(entries)), Obj(<<>>)))
Emitted == (Emit /\ Finished) => PrintT(ToJson([s |-> status, d |-> Doc]))
====
