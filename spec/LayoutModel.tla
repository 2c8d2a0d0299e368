---------------------------- MODULE LayoutModel ----------------------------
(* Every field of every layout by itself: the record that is zero (or full) except for one field,
   which has a value at its boundary.  The laws of the layouts are checked on each, and each is then
   read and written by the implementation. *)
EXTENDS Layout, Json

CONSTANTS Lays, Back       \* layouts; backgrounds: "00", "41"

VARIABLES rec      \* [lay, c, f]
RECURSIVE Rep(_, _)
Rep(b, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN b \o Rep(b, n - 1) ELSE LET z == Rep(b, n \div 2) IN z \o z

Patterns(x) ==
  CASE x.k = "str" -> {"", "41", Rep("42", x.w), Rep("43", x.w - 1) \o "00", "00" \o Rep("44", x.w - 1)}
    [] x.k = "b5" -> {"", "a440", Rep("45", x.e), Rep("a4e5", (x.e - 1) \div 2), "46" \o Rep("a4e5", (x.e - 1) \div 2),
                      "00" \o Rep("47", x.w - 1), "a44100" \o Rep("48", x.w - 3)}
    [] x.k = "raw" -> {Rep("80", x.w), Rep("01000000", x.w \div 4), Rep("00", x.w - 1) \o "ff", "ff"}
    [] x.k = "bool" -> {"00", "01", "02", "80", "ff"}
    [] x.k = "time" -> {"00000000", "01000000", "ffffff7f", "00000080", "ffffffff", "12345678"}
    [] x.w = 1 -> {"00", "01", "7f", "80", "ff"}
    [] x.w = 2 -> {"0000", "0100", "ff00", "0001", "ff7f", "0080", "ffff"}
    [] x.w = 4 -> {"00000000", "01000000", "00010000", "00000100", "00000001", "ffff0000", "ffffff7f", "00000080", "ffffffff"}
Fits(p, x) == HLen(p) <= x.w

\* a full background: text is full of letters, numbers are 0x4141
Base(L, b) ==
  LET v == [i \in DOMAIN L.fs |-> [x |-> L.fs[i]]]
  IN Rep(b, L.size)
With(c, x, p) == HSub(c, 1, x.o) \o HexText(p, x.w) \o HSub(c, x.o + x.w + 1, HLen(c))
\* fields of the full background whose last byte is not written or is a NUL
Tidy(L, c) == LET j == SelectSeq(L.fs, LAMBDA x : x.e < x.w) IN IF j = <<>> THEN c ELSE With(c, j[1], Rep("49", j[1].e))

Init == \E n \in Lays : \E b \in Back : rec = [lay |-> n, c |-> Tidy(LayoutOf(n), Base(LayoutOf(n), b)), f |-> ""]
Next == /\ rec.f = ""
        /\ \E i \in DOMAIN LayoutOf(rec.lay).fs :
             LET x == LayoutOf(rec.lay).fs[i]
             IN \E p \in Patterns(x) : Fits(p, x) /\ rec' = [rec EXCEPT !.c = With(@, x, p), !.f = x.f]
Spec == Init /\ [][Next]_rec

L0 == LayoutOf(rec.lay)
\* reading what was written gives what was held
RoundTrip == LET v == Read(rec.lay, rec.c) IN Read(rec.lay, Write(rec.lay, v)) = v
\* writing what was read changes nothing that a reader can see
Stable == LET w == Write(rec.lay, Read(rec.lay, rec.c)) IN Write(rec.lay, Read(rec.lay, w)) = w /\ HLen(w) = L0.size
\* a field by itself: changing it changes no other
Alone == rec.f # "" =>
  LET x == SelectSeq(L0.fs, LAMBDA y : y.f = rec.f)[1]
      v == Decode(L0, rec.c)
      u == Decode(L0, With(rec.c, x, ""))
  IN \A g \in DOMAIN v : g # rec.f => v[g] = u[g]
Shown == rec.f # "" => PrintT("VAL@@@" \o ToJson([lay |-> rec.lay, c |-> rec.c]))
=============================================================================
