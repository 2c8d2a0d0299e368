------------------------------ MODULE ShmModel ------------------------------
(* Two names and two handles, every call in every state; performed on the implementation as a tour. *)
EXTENDS Shm, Json, IOUtils
CONSTANTS Deep
VARIABLES st, act
Hs == {"a", "b"}
Nms == {[kind |-> "file", n |-> "x"], [kind |-> "key", n |-> "0"]}
With(a, b) == [f \in DOMAIN a \cup DOMAIN b |-> IF f \in DOMAIN a THEN a[f] ELSE b[f]]
IsOpen(h) == h \in DOMAIN st.hs /\ st.hs[h].open = 1
Users(n) == LET m == ShmNm(n) IN {h \in DOMAIN st.hs : st.hs[h].open = 1 /\ m \in DOMAIN st.names /\ st.hs[h].seg = st.names[m]}
Calls ==
  {With([op |-> "shmcreate", hd |-> h, size |-> z, where |-> ""], n) : h \in {x \in Hs : ~IsOpen(x)}, z \in {1} \cup (IF Deep THEN {2} ELSE {}), n \in {m \in Nms : m.kind = "key" \/ Users(m) = {}}}
  \cup {With([op |-> "shmcreate", hd |-> h, size |-> 0, where |-> ""], n) : h \in {x \in Hs : ~IsOpen(x)}, n \in {m \in Nms : m.kind = "key"}}
  \cup {With([op |-> "shmopen", hd |-> h, via |-> v], n) : h \in {x \in Hs : ~IsOpen(x)}, v \in {"open", "conn"}, n \in Nms}
  \cup {[op |-> "shmwrite", hd |-> h, at |-> 0, x |-> x] : h \in {x \in Hs : IsOpen(x)}, x \in {"01"}}
  \cup {[op |-> "shmread", hd |-> h] : h \in {x \in Hs : IsOpen(x)}}
  \cup {[op |-> "shmclose", hd |-> h] : h \in Hs \cap DOMAIN st.hs}
  \cup {With([op |-> "shmremove"], n) : n \in Nms}
  \cup {With([op |-> "shmlook"], n) : n \in {m \in Nms : m.kind = "file"}}
vars == <<st, act>>
Init == st = ShmInit /\ act = ""
Step(c) == \E o \in ShmOutcomes(st, c) : st' = o.st /\ act' = ""
           /\ (IOEnv.TOUR = "1" => PrintT("TR@@@" \o ToJson(st) \o "@@@" \o ToJson(c) \o "@@@" \o ToJson(o.st)))
Next == \E c \in Calls : Step(c)
Spec == Init /\ [][Next]_vars
\* what one handle reads, all others on the same memory read
Agree == \A g, h \in DOMAIN st.hs : IsOpen(g) /\ IsOpen(h) /\ st.hs[g].seg = st.hs[h].seg /\ st.hs[g].len = st.hs[h].len =>
           ShmOutcomes(st, [op |-> "shmread", hd |-> g]) = ShmOutcomes(st, [op |-> "shmread", hd |-> h])
Held2 == \A h \in DOMAIN st.hs : IsOpen(h) => st.hs[h].seg \in DOMAIN st.segs /\ st.hs[h].len <= st.segs[st.hs[h].seg].size
=============================================================================
