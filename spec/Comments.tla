------------------------------ MODULE Comments ------------------------------
(* What the comments of an article are: a function of the article's bytes.
   A line is a comment iff, after terminal control codes are removed, it holds a
   user id (a letter and at least one more letter or digit) directly followed by a
   colon and, later on, a time stamp "MM/DD hh:mm"; the leftmost user id and the last
   stamp count.  The text is what stands between them, without surrounding blanks. *)
EXTENDS Text

-----------------------------------------------------------------------------
(* Regular expressions with the priorities of the usual (leftmost-first) matchers:
   REnds(re, s, i) lists, in order of preference, the positions where a match that
   begins at i may end. *)
Cls(set) == [k |-> "c", set |-> set]
RSeq(a, b) == [k |-> "s", a |-> a, b |-> b]
RAlt(a, b) == [k |-> "a", a |-> a, b |-> b]
RStar(a) == [k |-> "r", a |-> a]
REps == [k |-> "e"]
ROpt(a) == RAlt(a, REps)
RECURSIVE RRep(_, _)
RRep(a, n) == IF n = 0 THEN REps ELSE ROpt(RSeq(a, RRep(a, n - 1)))     \* 0..n times

RECURSIVE REnds(_, _, _)
REnds(re, s, i) ==
  CASE re.k = "c" -> IF i <= Len(s) /\ s[i] \in re.set THEN <<i + 1>> ELSE <<>>
    [] re.k = "e" -> <<i>>
    [] re.k = "a" -> REnds(re.a, s, i) \o REnds(re.b, s, i)
    [] re.k = "s" -> LET es == REnds(re.a, s, i)
                     IN Flat([j \in DOMAIN es |-> REnds(re.b, s, es[j])])
    [] re.k = "r" -> LET es == REnds(re.a, s, i)
                     IN Flat([j \in DOMAIN es |-> IF es[j] > i THEN REnds(re, s, es[j]) ELSE <<>>]) \o <<i>>

Digit == 48..57
Lower == 97..122
Upper == 65..90
Alnum == Digit \cup Lower \cup Upper

\* terminal control codes: ESC (or the one-character CSI, two bytes in UTF-8), parameters, final byte
Intro == RAlt(Cls({27}), RSeq(Cls({194}), Cls({155})))
Params == RStar(Cls({91, 93, 40, 41, 35, 59, 63}))
BelForm == RSeq(ROpt(RSeq(RStar(Cls(Alnum)), RStar(RSeq(Cls({59}), RStar(Cls(Alnum)))))), Cls({7}))
Final == Digit \cup (65..80) \cup {82, 90, 99} \cup (102..110) \cup {116, 113, 114, 121, 61, 62, 60, 126}
NumForm == RSeq(ROpt(RSeq(RSeq(Cls(Digit), RRep(Cls(Digit), 3)),
                          RStar(RSeq(Cls({59}), RRep(Cls(Digit), 4))))), Cls(Final))
Code == RSeq(Intro, RSeq(Params, RAlt(BelForm, NumForm)))

RECURSIVE StripFrom(_, _, _)
StripFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] \notin {27, 194} THEN
         \* everything up to the next introducer is text
         LET nx == {j \in i..Len(s) : s[j] \in {27, 194}}
             e == IF nx = {} THEN Len(s) + 1 ELSE CHOOSE j \in nx : \A k \in nx : j <= k
         IN StripFrom(s, e, acc \o SubSeq(s, i, e - 1))
  ELSE LET es == REnds(Code, s, i)
       IN IF es = <<>> THEN StripFrom(s, i + 1, Append(acc, s[i]))
          ELSE StripFrom(s, es[1], acc)
Strip(s) == StripFrom(s, 1, <<>>)

-----------------------------------------------------------------------------
Letter == Lower \cup Upper
Blank == {9, 10, 11, 12, 13, 32}

IsStamp(s, t) ==
  /\ t + 10 <= Len(s)
  /\ \A k \in {0, 1, 3, 4, 6, 7, 9, 10} : s[t + k] \in Digit
  /\ s[t + 2] = 47
  /\ s[t + 5] \in {9, 10, 12, 13, 32}
  /\ s[t + 8] = 58

\* positions of colons that end a user id
Colons(s) == {c \in 3..Len(s) : s[c] = 58 /\ s[c - 1] \in Alnum}
\* start of the run of letters and digits that ends just before c
RunStart(s, c) == LET bad == {k \in 1..(c - 1) : s[k] \notin Alnum}
                  IN IF bad = {} THEN 1 ELSE 1 + CHOOSE k \in bad : \A j \in bad : j <= k
\* first letter in the run
IdStart(s, c) == LET ls == {k \in RunStart(s, c)..(c - 2) : s[k] \in Letter}
                 IN IF ls = {} THEN 0 ELSE CHOOSE k \in ls : \A j \in ls : k <= j

RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Head(s) \in Blank THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))

\* blanks beyond ASCII, in UTF-8: a reader may count them among the surrounding blanks
UniBlank == {<<194, 133>>, <<194, 160>>, <<225, 154, 128>>, <<226, 128, 168>>, <<226, 128, 169>>, <<226, 128, 175>>,
             <<226, 129, 159>>, <<227, 128, 128>>} \cup {<<226, 128, k>> : k \in 128..138}
Pre(s, n) == SubSeq(s, 1, n)
Suf(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
RECURSIVE UTrimL(_)
UTrimL(s) == IF s = <<>> THEN s
             ELSE IF Head(s) \in Blank THEN UTrimL(Tail(s))
             ELSE IF \E n \in 2..3 : n <= Len(s) /\ Pre(s, n) \in UniBlank
                  THEN UTrimL(SubSeq(s, 1 + CHOOSE n \in 2..3 : n <= Len(s) /\ Pre(s, n) \in UniBlank, Len(s)))
             ELSE s
RECURSIVE UTrimR(_)
UTrimR(s) == IF s = <<>> THEN s
             ELSE IF s[Len(s)] \in Blank THEN UTrimR(SubSeq(s, 1, Len(s) - 1))
             ELSE IF \E n \in 2..3 : n <= Len(s) /\ Suf(s, n) \in UniBlank
                  THEN UTrimR(SubSeq(s, 1, Len(s) - CHOOSE n \in 2..3 : n <= Len(s) /\ Suf(s, n) \in UniBlank))
             ELSE s
UTrim(s) == UTrimR(UTrimL(s))

Num2(s, t) == (s[t] - 48) * 10 + (s[t + 1] - 48)
DaysIn == <<31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>

RECURSIVE HexOf(_)
HexOf(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ByteHex[s[1]]
            ELSE LET m == Len(s) \div 2 IN HexOf(SubSeq(s, 1, m)) \o HexOf(SubSeq(s, m + 1, Len(s)))

\* one line: [k |-> "no"] no comment, [k |-> "bad"] a comment with an impossible time, or the comment
Line(raw) ==
  LET s == TLCEval(Strip(raw))
      stamps == {t \in 1..(Len(s) - 10) : IsStamp(s, t)}
      last == CHOOSE t \in stamps : \A u \in stamps : u <= t
      ids == {c \in Colons(s) : IdStart(s, c) > 0 /\ c < last}
      c0 == CHOOSE c \in ids : \A d \in ids : c <= d
  IN IF stamps = {} THEN [k |-> "no"]
     ELSE IF ids = {} THEN [k |-> "no"]
     ELSE LET m == Num2(s, last)  d == Num2(s, last + 3)
              h == Num2(s, last + 6)  n == Num2(s, last + 9)
          IN IF m \notin 1..12 \/ s[last + 5] # 32 THEN [k |-> "bad"]
             ELSE IF d \notin 1..DaysIn[m] \/ h > 23 \/ n > 59 THEN [k |-> "bad"]
             ELSE [k |-> "yes", own |-> HexOf(SubSeq(s, IdStart(s, c0), c0 - 1)),
                   t |-> <<m, d, h, n>>,
                   txt |-> HexOf(Trim(SubSeq(s, c0 + 1, last - 1))),
                   utxt |-> HexOf(UTrim(SubSeq(s, c0 + 1, last - 1)))]

\* the lines of a text; a carriage return before the line feed belongs to the line end
DropCR(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
RECURSIVE LinesFrom(_, _)
LinesFrom(s, nls) ==
  IF s = <<>> THEN <<>>
  ELSE IF nls = {} THEN <<DropCR(s)>>
  ELSE LET p == CHOOSE x \in nls : \A y \in nls : x <= y
       IN <<DropCR(SubSeq(s, 1, p - 1))>> \o
          LinesFrom(SubSeq(s, p + 1, Len(s)), {x - p : x \in nls \ {p}})
LinesOf(s) == LinesFrom(s, {i \in DOMAIN s : s[i] = 10})

LongLine == 65536      \* the line buffer
RECURSIVE Number(_, _)
Number(ls, n) == IF ls = <<>> THEN <<>>
                 ELSE IF Head(ls).k = "yes" THEN <<[Head(ls) EXCEPT !.k = n]>> \o Number(Tail(ls), n + 1)
                 ELSE Number(Tail(ls), n)

Dec == [i \in 0..2000 |-> ToString(i)]

\* [ok, long, cs]: ok - every comment has a possible time; long - some line exceeds the line buffer
Comments(h) ==
  LET lines == TLCEval(LinesOf(TLCEval(HSeq(h))))
      ls == TLCEval([i \in DOMAIN lines |-> Line(lines[i])])
      cs == TLCEval(Number(ls, 1))
  IN [ok |-> \A i \in DOMAIN ls : ls[i].k # "bad",
      long |-> \E i \in DOMAIN lines : Len(lines[i]) >= LongLine - 2,
      cs |-> [i \in DOMAIN cs |-> [n |-> Dec[i], own |-> cs[i].own, t |-> cs[i].t, txt |-> cs[i].txt, utxt |-> cs[i].utxt]]]
=============================================================================
