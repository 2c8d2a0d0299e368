----------------------------- MODULE TokenModel -----------------------------
(* Every population of NSlots slots out of a few kinds, every request out of a few names and passwords.
   What is granted is checked; all are performed on the server. *)
EXTENDS Token, Json
CONSTANT NSlots

Pw1 == StrHex("123123")
Pw2 == StrHex("123123x8")     \* its first eight bytes count
Pws == {"", Pw1, Pw2, Pw2 \o StrHex("9"), StrHex("12312")}
H1 == TLCEval(DesHash(Pw1, StrHex("ab")) \o "00")
H2 == TLCEval(DesHash(Pw2, StrHex(".Z")) \o "00")
HE == TLCEval(DesHash("", StrHex("xy")) \o "00")
Slot(id, pw) == [id |-> StrHex(id), pw |-> pw]
Slots == {Slot("", Zeros(14)), Slot("", H1), Slot("", HE), Slot("SYSOP", H1), Slot("SYSO", H2), Slot("sysop2", HE),
          Slot("SYSOP34567890", H2), Slot("broken", StrHex("ab") \o Zeros(12)), Slot("cut", HSub(H1, 1, 12) \o "0000"), Slot("none", Zeros(14))}
Names == {"", StrHex("SYSOP"), StrHex("SYSO"), StrHex("sysop"), StrHex("SYSOP "), StrHex("sysop2"), StrHex("SYSOP34567890"), StrHex("broken"), StrHex("cut"), StrHex("none")}

VARIABLES acc, q, k
Init == /\ acc \in [1..NSlots -> Slots]
        /\ \A i, j \in 1..NSlots : (i < j /\ acc[i].id # "") => acc[i].id # acc[j].id
        /\ q = [m |-> "", u |-> "", p |-> ""] /\ k = "start"
Next == /\ k = "start" /\ acc' = acc
        /\ q' \in [m : {"POST"}, u : Names, p : Pws]
        \* names which nobody has are asked for with one password
        /\ (Matching(acc, q'.u) = {} => q'.p = Pw1 \/ q'.u = "")
        /\ k' \in TokenKinds(acc, q')
Spec == Init /\ [][Next]_<<acc, q, k>>

\* nobody gets a token without being an account with this very hash
OnlyOwners == k = "token" => \E i \in DOMAIN acc : /\ acc[i].id = q.u /\ q.u # ""
                                                   /\ DesHash(q.p, HSub(acc[i].pw, 1, 2)) = HSub(acc[i].pw, 1, 13)
Owners == (\E i \in DOMAIN acc : /\ acc[i].id = q.u /\ q.u # ""
                              /\ LooksLikeHash(CStr(acc[i].pw, 14))
                              /\ CStr(acc[i].pw, 14) = DesHash(q.p, HSub(acc[i].pw, 1, 2))) => k = "token"
Shown == k # "start" => PrintT("VAL@@@" \o ToJson([acc |-> acc, q |-> q]))
=============================================================================
