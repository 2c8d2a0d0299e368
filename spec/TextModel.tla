----------------------------- MODULE TextModel -----------------------------
(* Every string of a few bytes - parts of codes, of escape sequences, line ends, NUL - and what the
   specification says of it; all of them are given to the implementation. *)
EXTENDS TextConv
CONSTANTS Alphabet, MaxLen

VARIABLES v
Init == v = <<>>
Next == Len(v) < MaxLen /\ \E x \in Alphabet : v' = Append(v, x)
Spec == Init /\ [][Next]_v

\* the one decoding of a string of known codes; <<-1>> where there is none
RECURSIVE DecOf(_)
DecOf(b) == IF b = <<>> THEN <<>>
            ELSE IF b[1] < 128 THEN <<b[1]>> \o DecOf(Tail(b))
            ELSE IF Len(b) = 1 THEN <<-1>>
            ELSE IF IsLead(b[1]) /\ IsTrail(b[2]) THEN (IF CharAt(b[1], b[2]) = 0 THEN <<-1>> ELSE <<CharAt(b[1], b[2])>> \o DecOf(SubSeq(b, 3, Len(b))))
            ELSE <<-1>>
\* a decoding of any string, one step at a time
RECURSIVE SomeDec(_)
SomeDec(b) == IF b = <<>> THEN <<>>
              ELSE IF b[1] < 128 THEN <<b[1]>> \o SomeDec(Tail(b))
              ELSE IF Len(b) > 1 /\ IsLead(b[1]) /\ (IF Len(b) > 1 THEN IsTrail(b[2]) ELSE FALSE)
                   THEN <<IF CharAt(b[1], b[2]) = 0 THEN Mark ELSE CharAt(b[1], b[2])>> \o SomeDec(SubSeq(b, 3, Len(b)))
              ELSE <<Mark>> \o SomeDec(Tail(b))
Good(b) == \A x \in SeqSet(DecOf(b)) : x >= 0
Lines(s) == Cardinality({i \in DOMAIN s : s[i] = 10})

\* every string can be read; no line end is lost; what is good has one reading, and is what that text is written as
Readable == Decodes(v, SomeDec(v)) /\ Lines(SomeDec(v)) = Lines(v)
Exact == Good(v) => /\ Decodes(v, DecOf(v)) /\ DecOf(v) = SomeDec(v)
                    /\ (Plain(DecOf(v)) => Encodes(DecOf(v), v))
                    /\ \A i \in DOMAIN DecOf(v) : ~Decodes(v, [DecOf(v) EXCEPT ![i] = @ + 1])
\* a text is read as its parts are
Parts == \A n \in 1..(Len(v) - 1) :
           LET a == SubSeq(v, 1, n)  b == SubSeq(v, n + 1, Len(v))
           IN Good(a) => Decodes(v, DecOf(a) \o SomeDec(b))
\* without terminal codes nothing is removed, and what is left has no more to remove from its plain part
Filtered == ({27, 194} \cap SeqSet(v) = {}) => Strip(v) = v
Shown == PrintT("VAL@@@" \o ToJson(v))
=============================================================================
