----------------------------- MODULE LoginModel -----------------------------
(* Every line built from a few values per part, and each with one thing wrong; those which are lines of a
   log are checked to be read as what they were written from.  All are read by the implementation. *)
EXTENDS LoginLog, Json

Flags == {0, 1}
Ids == {"41", "5359534f50", "616263313233343536373839", "2d", "5b"}
Times == {<<2021, 1, 1, 10, 15, 16>>, <<2020, 2, 29, 23, 59, 59>>, <<1999, 12, 31, 0, 0, 0>>, <<2100, 3, 1, 12, 0, 9>>, <<1, 1, 1, 9, 9, 9>>,
          <<2024, 2, 29, 1, 1, 1>>, <<9999, 12, 31, 23, 0, 59>>}
Hosts == {"3137322e32322e302e31", "", "2041", "3a3a31", "413f40"}
Recs == [s : Flags, id : Ids, t : Times, host : Hosts] \cup [s : {0}, id : {""}, t : Times, host : Hosts]

VARIABLES line     \* [k, kind, l, r]
\* one byte dropped, doubled or replaced
Wrong(l) ==
  UNION {{HSub(l, 1, i - 1) \o HSub(l, i + 1, HLen(l)), HSub(l, 1, i) \o HSub(l, i, HLen(l))} \cup
         {HSub(l, 1, i - 1) \o b \o HSub(l, i + 1, HLen(l)) : b \in {"20", "30", "33", "39", "2d", "5b", "2e", "41"}}
           : i \in 1..HLen(l)} \cup {HSub(l, 1, i) : i \in 0..HLen(l)}
Some == {r \in Recs : r.s = 1 \/ r.id = ""}
Init == \E r \in Recs : line = [k |-> "ok", kind |-> "bad", l |-> WriteLine(r), r |-> r]
Next == /\ line.k = "ok"
        /\ \/ /\ line.kind = "bad" /\ line.r.id = "" /\ line.r.host # "" /\ line.r.host # "2041"
              /\ line' = [line EXCEPT !.kind = "recent", !.l = DateHex(line.r.t) \o "20" \o line.r.host]
           \/ /\ line.r.host = "3a3a31" /\ line.r.id \in {"", "5359534f50"}
              /\ line.r.t \in {<<2020, 2, 29, 23, 59, 59>>, <<1999, 12, 31, 0, 0, 0>>, <<2021, 1, 1, 10, 15, 16>>}
              /\ \E w \in Wrong(line.l) : line' = [line EXCEPT !.k = "wrong", !.l = w]
Spec == Init /\ [][Next]_line

RoundTrip == line.k = "ok" => ParseLine(line.kind, line.l) = [k |-> "good", v |-> line.r]
\* a record and its line are one
Faithful == LET p == ParseLine(line.kind, line.l) IN p.k = "good" /\ line.kind = "bad" => WriteLine(p.v) = line.l
Cut == line.k = "ok" /\ line.kind = "bad" => \A n \in 0..(IF line.r.id = "" THEN 25 ELSE 38) : ParseLine("bad", HSub(line.l, 1, n)).k = "bad"
Shown == PrintT("VAL@@@" \o ToJson([kind |-> line.kind, c |-> line.l]))
=============================================================================
