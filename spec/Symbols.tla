---- MODULE Symbols ----
(***************************************************************************)
(* The operator vocabulary: texts are typed character by character, or made *)
(* from a sign or a name by a number of edits; the maps between operators    *)
(* form the structure the module says.                                      *)
(***************************************************************************)
EXTENDS CompOp, TLC, Json

CONSTANTS Typing,        \* "signs", "words", "edits"
          N, Emit

VARIABLES txt, n
vars == <<txt, n>>

SignChars == {60, 61, 62, 33, 126, 32}
NameSet == { Name(op) : op \in Ops }
SignSet == { Sign(op) : op \in Ops }
(* the characters that occur in names, in both cases, and space *)
Upper1(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Init == /\ n = 0
        /\ IF Typing = "edits" THEN txt \in NameSet \cup SignSet ELSE txt = <<>>

Type(c) == Typing = "signs" /\ txt' = Append(txt, c)
(* syllables of the names *)
Syllables == { <<101,113>>, <<110,101>>, <<108>>, <<103>>, <<116>>, <<101>>, SW, CO, <<110,111,116>>, <<105,110>>, <<33,61>>, <<61>> }
TypeWord(w) == Typing = "words" /\ txt' = txt \o w
Swap(i) == Upper1(txt[i]) # txt[i] /\ txt' = [txt EXCEPT ![i] = Upper1(@)]
Drop(i) == txt' = SubSeq(txt, 1, i - 1) \o SubSeq(txt, i + 1, Len(txt))
Double(i) == txt' = SubSeq(txt, 1, i) \o SubSeq(txt, i, Len(txt))
Space(i) == \E s \in {32, 9, 12288} : txt' = SubSeq(txt, 1, i) \o <<s>> \o SubSeq(txt, i + 1, Len(txt))
Edit == Typing = "edits" /\ (\/ \E i \in 1 .. Len(txt) : Swap(i) \/ Drop(i) \/ Double(i)
                             \/ \E i \in 0 .. Len(txt) : Space(i))
Next == /\ n < N /\ n' = n + 1
        /\ ((\E c \in SignChars : Type(c)) \/ (\E w \in Syllables : TypeWord(w)) \/ Edit)
Spec == Init /\ [][Next]_vars

(* ---- structure ------------------------------------------------------------------ *)
ASSUME \A op \in Ops :
    /\ FromSign(Sign(op)) = op /\ FromName(Name(op)) = op
    /\ Invert(Invert(op)) = op /\ Invert(op) # op
    /\ Flip(Flip(op)) = op
    /\ op \in {"Lt", "Le", "Gt", "Ge"} => /\ Opposite(op) = Flip(op) /\ Factor(Flip(op)) = -Factor(op)
                                          /\ Invert(Flip(op)) = Flip(Invert(op))
    /\ Ord(op) # 8 => FromOrd(Ord(op)) = op
ASSUME \A o1 \in Ops, o2 \in Ops : o1 # o2 => Sign(o1) # Sign(o2) /\ Name(o1) # Name(o2) /\ Invert(o1) # Invert(o2)
ASSUME SignSet \cap NameSet = {}
(* a sign has no letter but that of the negated prefix test; a name none of them *)
(* ---- every text is at most one operator, in one of the two notations ------------- *)
OneNotation == FromSign(txt) = "err" \/ FromName(txt) = "err"
SpacesAside == /\ FromSign(<<32>> \o txt \o <<12288>>) = FromSign(txt)
               /\ FromName(<<9>> \o txt) = FromName(txt)
CaseAside == /\ FromName(Map(Upper1, txt)) = FromName(txt)
ReadBack == /\ FromSign(txt) # "err" => Sign(FromSign(txt)) = Trim(txt)
            /\ FromName(txt) # "err" => Name(FromName(txt)) = Map(AsciiLower1, Trim(txt))
Emitted == Emit => PrintT(ToJson([t |-> txt]))
====
