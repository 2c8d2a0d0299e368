-------------------------------- MODULE Text --------------------------------
(* Byte strings are written as strings of hexadecimal digits, two per byte. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

HexDigits == "0123456789abcdef"
HexDigitVal == [d \in {SubSeq(HexDigits, i, i) : i \in 1..16} |->
                  CHOOSE i \in 0..15 : SubSeq(HexDigits, i + 1, i + 1) = d]

\* number of bytes
HLen(h) == Len(h) \div 2

\* the i-th byte, as two digits
HByte(h, i) == SubSeq(h, 2 * i - 1, 2 * i)

\* bytes a..b
HSub(h, a, b) == IF b < a THEN "" ELSE SubSeq(h, 2 * a - 1, 2 * b)

ByteVal == TLCEval([x \in {SubSeq(HexDigits, i, i) \o SubSeq(HexDigits, j, j) : i, j \in 1..16} |->
              HexDigitVal[SubSeq(x, 1, 1)] * 16 + HexDigitVal[SubSeq(x, 2, 2)]])

ByteHex == TLCEval([v \in 0..255 |-> SubSeq(HexDigits, (v \div 16) + 1, (v \div 16) + 1) \o
                             SubSeq(HexDigits, (v % 16) + 1, (v % 16) + 1)])

HSeq(h) == [i \in 1..HLen(h) |-> ByteVal[HByte(h, i)]]

\* a C string in a field of n bytes: ends before the first NUL, at most n bytes
CStr(h, n) ==
  LET m == IF HLen(h) < n THEN HLen(h) ELSE n
      nul == {i \in 1..m : HByte(h, i) = "00"}
      e == IF nul = {} THEN m ELSE (CHOOSE i \in nul : \A j \in nul : i <= j) - 1
  IN HSub(h, 1, e)

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

\* the text of ASCII bytes, "?" for everything else
Ch == TLCEval([v \in 0..255 |-> IF v >= 32 /\ v <= 126 THEN SubSeq(Printable, v - 31, v - 31) ELSE "?"])
RECURSIVE HStr(_)
HStr(h) == IF h = "" THEN "" ELSE Ch[ByteVal[SubSeq(h, 1, 2)]] \o HStr(SubSeq(h, 3, Len(h)))

CodeOf == TLCEval([c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
             ByteHex[31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c]])
RECURSIVE StrHex(_)
StrHex(s) == IF s = "" THEN "" ELSE CodeOf[SubSeq(s, 1, 1)] \o StrHex(SubSeq(s, 2, Len(s)))

\* override f at k, extending its domain if need be
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

SeqSet(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RemoveIdx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE IsSubSeq(_, _)
IsSubSeq(a, b) == IF a = <<>> THEN TRUE
                  ELSE IF b = <<>> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN IsSubSeq(Tail(a), Tail(b)) ELSE IsSubSeq(a, Tail(b))
=============================================================================
