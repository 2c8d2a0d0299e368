------------------------------ MODULE TextConv ------------------------------
(* Texts in the encoding of the BBS and as characters.  In Big5 a byte below 128 is a character of its own;
   any other begins a code of two bytes.  What is no code becomes one mark (FFFD) and takes no line end with
   it; a character which has no code becomes the byte 1A.  A character that has a code in Big5 itself is
   written with that one, and never with that of an extension which BBS programs do not know. *)
EXTENDS Comments, Json, IOUtils, SequencesExt

TabL == TLCEval(JsonDeserialize(IOEnv.TEXTTAB))
TabDec == TLCEval(TabL.dec)
TabGrade == TLCEval(TabL.grade)
TabHas == TLCEval(TabL.has)
First == 33088                             \* 8140, the code with which the tables begin

IsLead(x) == x \in 129..254
IsTrail(x) == x \in 64..126 \/ x \in 161..254
CodeIdx(x, y) == (x * 256 + y) - (First - 1)
CharAt(x, y) == TabDec[CodeIdx(x, y)]      \* 0: a code on which the decoders do not agree
Mark == 65533

\* Decoding: characters are told one after the other; kept is the set of places of b at which the next may
\* begin.  A code on which the decoders do not agree may be told as two characters: -i is its middle.
Unknown(b, i) == IF IsLead(b[i]) /\ i < Len(b) THEN (IF IsTrail(b[i + 1]) THEN CharAt(b[i], b[i + 1]) = 0 ELSE FALSE) ELSE FALSE
Known(b, i) == IF IsLead(b[i]) /\ i < Len(b) THEN (IF IsTrail(b[i + 1]) THEN CharAt(b[i], b[i + 1]) # 0 ELSE FALSE) ELSE FALSE
DecNext(b, i, c) ==
  IF i < 0 THEN {2 - i}
  ELSE IF i > Len(b) THEN {}
  ELSE IF b[i] < 128 THEN (IF c = b[i] THEN {i + 1} ELSE {})
  ELSE IF Known(b, i) THEN (IF c = CharAt(b[i], b[i + 1]) THEN {i + 2} ELSE {})
  ELSE IF Unknown(b, i) THEN (IF c >= 128 THEN {i + 2, 0 - i} ELSE {})
  ELSE IF c # Mark THEN {}
  ELSE IF IsLead(b[i]) /\ i < Len(b) THEN (IF b[i + 1] > 126 THEN {i + 1, i + 2} ELSE {i + 1})
  ELSE {i + 1}
Decodes(b, o) == LET Step(at, c) == IF at = {} THEN at ELSE UNION {DecNext(b, i, c) : i \in at}
                 IN (Len(b) + 1) \in FoldLeft(Step, {1}, o)

\* Encoding: the code that may stand for a character
CodeOK(c, x, y) ==
  LET h == IF c < 65536 THEN TabHas[c + 1] ELSE 0
      d == CharAt(x, y)
  IN IsLead(x) /\ IsTrail(y) /\ (IF h = 3 THEN d = c /\ TabGrade[CodeIdx(x, y)] = 3 ELSE d \in {0, c})
MayLack(c) == IF c > 65535 THEN TRUE ELSE (c > 127 /\ TabHas[c + 1] < 1)
\* kept is the place of b at which the next character begins, 0 when it cannot
EncNext(b, j, x) ==
  IF j = 0 \/ j > Len(b) THEN 0
  ELSE IF x < 128 THEN (IF b[j] = x THEN j + 1 ELSE 0)
  ELSE IF b[j] = 26 THEN (IF MayLack(x) THEN j + 1 ELSE 0)
  ELSE IF j < Len(b) THEN (IF CodeOK(x, b[j], b[j + 1]) THEN j + 2 ELSE 0) ELSE 0
Encodes(t, b) == LET Step(j, x) == EncNext(b, j, x)
                 IN FoldLeft(Step, 1, t) = Len(b) + 1

\* a text all of whose characters have a code of Big5 itself: written and read again it is the same
Plain(t) == \A i \in DOMAIN t : IF t[i] < 128 THEN TRUE ELSE IF t[i] < 65536 THEN TabHas[t[i] + 1] = 3 ELSE FALSE
=============================================================================
