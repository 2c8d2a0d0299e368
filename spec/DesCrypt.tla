------------------------------ MODULE DesCrypt ------------------------------
(* The traditional Unix password hash: DES with a salted expansion, 25 times over, on a block of zeros.
   Bits are numbers 0 and 1, numbered as in FIPS 46. *)
EXTENDS Text

EBit == TLCEval(<<32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17, 16, 17, 18, 19,
    20, 21, 20, 21, 22, 23, 24, 25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1>>)
PBit == TLCEval(<<16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30,
    6, 22, 11, 4, 25>>)
PC1 == TLCEval(<<57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52,
    44, 36, 63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5,
    28, 20, 12, 4>>)
PC2 == TLCEval(<<14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2, 41, 52, 31,
    37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32>>)
FinalPerm == TLCEval(<<40, 8, 48, 16, 56, 24, 64, 32, 39, 7, 47, 15, 55, 23, 63, 31, 38, 6, 46, 14, 54, 22, 62, 30, 37, 5,
    45, 13, 53, 21, 61, 29, 36, 4, 44, 12, 52, 20, 60, 28, 35, 3, 43, 11, 51, 19, 59, 27, 34, 2, 42, 10,
    50, 18, 58, 26, 33, 1, 41, 9, 49, 17, 57, 25>>)
SBox == TLCEval(<<
  <<14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8, 4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13>>,
  <<15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5, 0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9>>,
  <<10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1, 13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12>>,
  <<7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9, 10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14>>,
  <<2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6, 4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3>>,
  <<12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8, 9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13>>,
  <<4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6, 1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12>>,
  <<13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2, 7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11>>>>)
Shift == <<1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1>>

Bits8 == TLCEval([v \in 0..255 |-> [k \in 1..8 |-> (v \div 2^(8 - k)) % 2]])
Bits4 == TLCEval([v \in 0..15 |-> [k \in 1..4 |-> (v \div 2^(4 - k)) % 2]])
PBox == TLCEval([j \in 1..32 |-> ((PBit[j] - 1) \div 4) + 1])
PPos == TLCEval([j \in 1..32 |-> ((PBit[j] - 1) % 4) + 1])

\* the key: seven bits of each of the first eight bytes before a NUL
KeyLen(pw) == LET n == IF HLen(pw) < 8 THEN HLen(pw) ELSE 8
              IN CHOOSE m \in 0..n : /\ \A i \in 1..m : HByte(pw, i) # "00"
                                     /\ m = n \/ HByte(pw, m + 1) = "00"
KeyBits(pw) == LET m == KeyLen(pw)
               IN [x \in 1..64 |-> LET i == ((x - 1) \div 8) + 1
                                       k == ((x - 1) % 8) + 1
                                   IN IF i > m \/ k = 8 THEN 0 ELSE Bits8[ByteVal[HByte(pw, i)]][k + 1]]

Rot(s, n) == TLCEval([i \in 1..28 |-> s[((i + n - 1) % 28) + 1]])
RECURSIVE Halves(_, _, _)
Halves(c, d, r) ==
  IF r > 16 THEN <<>>
  ELSE LET c1 == Rot(c, Shift[r])
           d1 == Rot(d, Shift[r])
       IN <<TLCEval([i \in 1..48 |-> IF PC2[i] <= 28 THEN c1[PC2[i]] ELSE d1[PC2[i] - 28]])>> \o Halves(c1, d1, r + 1)
\* the sixteen round keys
Schedule(pw) ==
  LET k == TLCEval(KeyBits(pw))
  IN TLCEval(Halves(TLCEval([i \in 1..28 |-> k[PC1[i]]]), TLCEval([i \in 1..28 |-> k[PC1[i + 28]]]), 1))

Alphabet == "./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
SaltVal == TLCEval([c \in {CodeOf[SubSeq(Alphabet, i, i)] : i \in 1..64} |->
                      (CHOOSE i \in 1..64 : CodeOf[SubSeq(Alphabet, i, i)] = c) - 1])
\* the expansion, in which the salt exchanges bits of its halves
Expansion(salt) ==
  LET v == SaltVal[HByte(salt, 1)] + 64 * SaltVal[HByte(salt, 2)]
      on(i) == i <= 12 /\ (v \div 2^(i - 1)) % 2 = 1
  IN TLCEval([i \in 1..48 |-> IF on(((i - 1) % 24) + 1) THEN EBit[((i + 23) % 48) + 1] ELSE EBit[i]])

Round(l, r, k, e) ==
  LET x(n) == (r[e[n]] + k[n]) % 2
      s == TLCEval([b \in 1..8 |-> LET o == 6 * (b - 1)
                                    IN SBox[b][(32 * x(o + 1)) + (16 * x(o + 6)) + (8 * x(o + 2)) + (4 * x(o + 3))
                                               + (2 * x(o + 4)) + x(o + 5) + 1]])
  IN TLCEval([j \in 1..32 |-> (l[j] + Bits4[s[PBox[j]]][PPos[j]]) % 2])
RECURSIVE Rounds(_, _, _, _, _)
Rounds(l, r, n, ks, e) == IF n > 16 THEN <<l, r>> ELSE Rounds(r, Round(l, r, ks[n], e), n + 1, ks, e)
RECURSIVE Times(_, _, _, _, _)
Times(l, r, n, ks, e) == IF n = 0 THEN <<l, r>>
                         ELSE LET x == Rounds(l, r, 1, ks, e) IN Times(x[2], x[1], n - 1, ks, e)

Zero32 == [i \in 1..32 |-> 0]
\* the hash: the two characters of the salt and eleven more
DesHash(pw, salt) ==
  LET x == Times(Zero32, Zero32, 25, Schedule(pw), Expansion(salt))
      b == TLCEval([i \in 1..66 |-> IF i > 64 THEN 0
                                     ELSE IF FinalPerm[i] <= 32 THEN x[1][FinalPerm[i]] ELSE x[2][FinalPerm[i] - 32]])
      c(n) == LET o == 6 * (n - 1)
                  v == (32 * b[o + 1]) + (16 * b[o + 2]) + (8 * b[o + 3]) + (4 * b[o + 4]) + (2 * b[o + 5]) + b[o + 6]
              IN CodeOf[SubSeq(Alphabet, v + 1, v + 1)]
  IN HSub(salt, 1, 2) \o c(1) \o c(2) \o c(3) \o c(4) \o c(5) \o c(6) \o c(7) \o c(8) \o c(9) \o c(10) \o c(11)

IsSaltChar(h) == h \in DOMAIN SaltVal
LooksLikeHash(s) == HLen(s) = 13 /\ \A i \in 3..13 : IsSaltChar(HByte(s, i))
\* what a check of password pw against the 14 bytes of the stored field may report
Verdicts(field, pw) ==
  LET s == CStr(field, 14)
  IN IF ~LooksLikeHash(s) THEN {"err"}
     \* salts of other characters are not defined
     ELSE IF ~IsSaltChar(HByte(s, 1)) \/ ~IsSaltChar(HByte(s, 2)) THEN {"ok", "err"}
     ELSE IF DesHash(pw, HSub(s, 1, 2)) = s THEN {"ok"} ELSE {"err"}
=============================================================================
