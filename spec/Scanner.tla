---- MODULE Scanner ----
(***************************************************************************)
(* Reading a version text, one character at a time. What is read comes     *)
(* from the environment, so that the behaviours of this module are the     *)
(* readings of all texts of up to N of the given tokens. The text read so  *)
(* far is a complete text in every state: Result is what reading it gives. *)
(***************************************************************************)
EXTENDS ShowVersion, TLC, Json

CONSTANTS Tokens, N, Emit

(* Alphabets for the configurations *)
Chars == { <<48>>, <<49>>, <<97>>, <<46>>, <<33>>, <<43>>, <<45>> }        \* 0 1 a . ! + -
Limits == { <<48>>, <<45>>, <<43>>, <<33>>, <<46>>, <<97>>, <<48, 48>>,
            <<51,50,55,54,55>>, <<51,50,55,54,56>>,                        \* 32767 32768
            MaxI32, <<50,49,52,55,52,56,51,54,52,56>> }                    \* 2147483647/8
Foreign == { <<49>>, <<97>>, <<95>>, <<33>>, <<43>>, <<32>>, <<10>>,
             <<233>>, <<1635>>, <<65297>>, <<178>>, <<0>>, <<8722>>, <<128512>> }   \* é ٣ １ ² NUL − 😀

VARIABLES txt,     \* characters read
          n,       \* tokens read
          st       \* the reader
vars == <<txt, n, st>>

(* The reader:                                                              *)
(*   mode   "front" (an epoch mark may still come), "release", "fail"        *)
(*   num    the front taken as an epoch: [st, neg, val]                      *)
(*   epoch  <<>> or <<number>>                                               *)
(*   loc    NoLocal, or the characters of the local part begun               *)
(*   parts  components completed                                             *)
(*   run    the unfinished run: [k, s], k in {"none", "digits", "other"}     *)
NoRun == [k |-> "none", s |-> <<>>]
NoLocal == <<-1>>
NumStart == [st |-> "start", neg |-> FALSE, val |-> 0]
Start == [mode |-> "front", num |-> NumStart, epoch |-> <<>>, loc |-> NoLocal, parts |-> <<>>, run |-> NoRun]

(* the front as an epoch: [+-]? digit+ , the value saturating *)
NumStep(m, c) ==
    CASE m.st = "start" /\ c \in {Plus, Dash} -> [m EXCEPT !.st = "signed", !.neg = (c = Dash)]
      [] m.st \in {"start", "signed", "digits"} /\ IsAsciiDigit(c) ->
            [m EXCEPT !.st = "digits", !.val = Min2(40000, 10 * m.val + (c - 48))]
      [] OTHER -> [m EXCEPT !.st = "bad"]
NumOK(m) == m.st = "digits" /\ m.val <= (IF m.neg THEN 32768 ELSE 32767)
NumValue(m) == IF m.neg THEN -m.val ELSE m.val

Close(ps, r) == IF r.k = "none" THEN ps ELSE Append(ps, RunPart([d |-> r.k = "digits", s |-> r.s]))

ReadBang(s) ==
    IF s.mode = "front" /\ NumOK(s.num)
    THEN [Start EXCEPT !.mode = "release", !.epoch = <<NumValue(s.num)>>]
    ELSE [s EXCEPT !.mode = "fail"]
ReadPlus(s) ==
    IF s.loc # NoLocal THEN [s EXCEPT !.mode = "fail"]
    ELSE [s EXCEPT !.loc = <<>>, !.parts = Close(s.parts, s.run), !.run = NoRun, !.num = NumStep(s.num, Plus)]
ReadPlain(s, c) ==
    LET k == IF IsDigit(c) THEN "digits" ELSE "other"
        t == [s EXCEPT !.num = NumStep(s.num, c)]
    IN IF s.loc # NoLocal THEN [t EXCEPT !.loc = Append(@, c)]
       ELSE IF IsSep(c) THEN [t EXCEPT !.parts = Close(s.parts, s.run), !.run = NoRun]
       ELSE IF s.run.k = k THEN [t EXCEPT !.run.s = Append(@, c)]
       ELSE [t EXCEPT !.parts = Close(s.parts, s.run), !.run = [k |-> k, s |-> <<c>>]]
ReadChar(s, c) == IF s.mode = "fail" THEN s
                  ELSE IF c = Bang THEN ReadBang(s) ELSE IF c = Plus THEN ReadPlus(s) ELSE ReadPlain(s, c)

Init == txt = <<>> /\ n = 0 /\ st = Start
Read(k) == /\ n < N /\ n' = n + 1
           /\ txt' = txt \o k
           /\ st' = FoldLeft(ReadChar, st, k)
Next == \E k \in Tokens : Read(k)
Spec == Init /\ [][Next]_vars

Result ==
    LET p == (IF st.epoch = <<>> THEN <<>> ELSE << <<"E", st.epoch>> >>)
             \o Close(st.parts, st.run)
             \o (IF st.loc \in {NoLocal, <<>>} THEN <<>> ELSE << <<"L", st.loc>> >>)
    IN IF p = <<>> THEN << <<"Z", <<>>>> >> ELSE p
Failed == st.mode = "fail"

(* ---- the reader and the definitions agree ---------------------------------- *)
AcceptsWellFormed == (~Failed) = Accepted(txt) /\ Parse(txt).ok = Accepted(txt)
ReadsComponents == ~Failed => Result = Parse(txt).parts
NeverEmpty == ~Failed => Len(Result) >= 1
(* every character that is not a separator, a mark or a leading zero ends up   *)
(* in exactly one component, in order                                          *)
PartChars(x) == IF x[1] = "E" THEN <<>> ELSE x[2]
Release(t) == LET es == SplitOn(t, IsBang) IN es[Len(es)]
Kept(t) == LET ls == SplitOn(Release(t), IsPlus)
               keep(r) == IF FitsInteger(r) THEN Norm(r.s) ELSE r.s
           IN FoldLeft(LAMBDA acc, piece : acc \o FoldLeft(LAMBDA a, r : a \o keep(r), <<>>, Runs(piece)),
                       <<>>, SplitOn(ls[1], IsSep)) \o (IF Len(ls) = 2 THEN ls[2] ELSE <<>>)
NothingLost == ~Failed => FoldLeft(LAMBDA acc, x : acc \o PartChars(x), <<>>, Result) = Kept(txt)
(* separators only separate *)
SepsOnly == (~Failed /\ st.loc = NoLocal /\ st.run.k = "none" /\ txt # <<>> /\ IsSep(txt[Len(txt)]))
            => Parse(txt).parts = Parse(SubSeq(txt, 1, Len(txt) - 1)).parts
(* at most one epoch, first; at most one local part, last; "Z" alone *)
Shape == ~Failed =>
    \A i \in 1 .. Len(Result) :
        /\ Result[i][1] = "E" => i = 1
        /\ Result[i][1] = "L" => i = Len(Result)
        /\ Result[i][1] = "Z" => Len(Result) = 1
        /\ Result[i][1] \in {"T", "L"} => Result[i][2] # <<>>
(* the components can be read off the shown form *)
ShowsFaithfully == ~Failed => Faithful(Result)
(* a text that is refused stays refused however it goes on *)
RefusalIsFinal == [][Failed => Failed']_vars

Emitted == Emit => PrintT(ToJson([t |-> txt]))
====
