---------------------------- MODULE SettingsModel ----------------------------
(* Two users whose flags are switched bit by bit, all 32 bits; every reached pair is asked for. *)
EXTENDS Settings, TLC, Json, IOUtils
CONSTANTS MaxOn
VARIABLES acc, last
vars == <<acc, last>>

Ids == <<"616c", "626f62">>       \* al, bob
Val(s) == LET lo(b) == {k \in s : k < 16}
              RECURSIVE Sum(_, _)
              Sum(t, d) == IF t = {} THEN 0 ELSE LET k == CHOOSE k \in t : TRUE IN 2^(k - d) + Sum(t \ {k}, d)
          IN <<Sum({k \in s : k >= 16}, 16), Sum({k \in s : k < 16}, 0)>>
Rec(i, s) == [userid |-> Ids[i], userflag |-> Val(s)]
Accounts == <<Rec(1, acc[1]), Rec(2, acc[2])>>

Emit(x) == PrintT("VAL@@@" \o ToJson(x))
Init == acc = <<{}, {}>> /\ last = [r |-> "none", on |-> {}]
Flip(i, k) == /\ acc' = [acc EXCEPT ![i] = IF k \in @ THEN @ \ {k} ELSE @ \cup {k}]
              /\ Cardinality(acc'[1]) + Cardinality(acc'[2]) <= MaxOn
              /\ Emit([a |-> Val(acc'[1]), b |-> Val(acc'[2])])
              /\ last' = CHOOSE x \in Told(<<Rec(1, acc'[1]), Rec(2, acc'[2])>>, Ids[i]) : TRUE
Next == \E i \in 1..2, k \in 0..31 : Flip(i, k)
Spec == Init /\ [][Next]_vars

\* every setting is told, as its own bit of its own user says, and nothing else decides it
Own == \A i \in 1..2 : Told(Accounts, Ids[i]) = {[r |-> "ok", on |-> {s \in DOMAIN UserSettings : UserSettings[s] \in acc[i]}]}
Nobody == Told(Accounts, "61") = {[r |-> "err", on |-> {}]} /\ Told(<<>>, Ids[1]) = {[r |-> "err", on |-> {}]}
\* one bit more or less is at most one setting more or less, and for a setting's bit exactly that one
OneEach == \A k \in 0..31, i \in 1..2 :
             LET d == SettingsOf(Val(acc[i])) \ SettingsOf(Val(acc[i] \ {k}))
             IN d \subseteq {s \in DOMAIN UserSettings : UserSettings[s] = k} /\ (k \in acc[i] => d = {s \in DOMAIN UserSettings : UserSettings[s] = k})
=============================================================================
