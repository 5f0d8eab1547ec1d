------------------------------- MODULE Bytes -------------------------------
(* Byte strings and unbounded-width integers.                              *)
(* Every integer of the wire format is represented by the sequence of its  *)
(* bytes, least significant byte first; TLC's own integers are only used   *)
(* for positions and (saturated) counts.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Byte == 0..255
Endian == {"le", "be"}

\* "as good as infinite": more than any input that can be represented here
BIG == 1073741824

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SatAdd(a, b) == IF a >= BIG - b THEN BIG ELSE a + b
SatMul(a, b) == IF a = 0 \/ b = 0 THEN 0
                ELSE IF a >= BIG \div b THEN BIG ELSE a * b

\* reverse every group of w bytes
RevW(b, w) == IF w = 1 \/ Len(b) < 2 THEN b
              ELSE [i \in 1..Len(b) |-> b[((i - 1) \div w) * w + (w - ((i - 1) % w))]]
\* the bytes of (a run of) w-byte integers as they are laid out in byte order e
InOrder(b, w, e) == IF e = "be" THEN RevW(b, w) ELSE b

Take(b, p, n) == SubSeq(b, p + 1, p + n)          \* n bytes at offset p
Zeros(n) == [i \in 1..n |-> 0]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* value of a little endian byte string, saturated at BIG
ToInt(b) ==
  IF \E i \in 5..Len(b) : b[i] # 0 THEN BIG
  ELSE LET g(i) == IF i <= Len(b) THEN b[i] ELSE 0
       IN IF g(4) >= 64 THEN BIG
          ELSE g(1) + 256 * g(2) + 65536 * g(3) + 16777216 * g(4)

\* n (< 2^31) as w little endian bytes
Pow256(i) == CASE i = 0 -> 1 [] i = 1 -> 256 [] i = 2 -> 65536 [] i = 3 -> 16777216
FromInt(n, w) == [i \in 1..w |-> IF i <= 4 THEN (n \div Pow256(i - 1)) % 256 ELSE 0]
FitsIn(n, w) == w >= 4 \/ n < Pow256(w)

\* zero-extend to w bytes
Extend(b, w) == [i \in 1..w |-> IF i <= Len(b) THEN b[i] ELSE 0]

\* a < b, unsigned, same width
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i = 0 THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtFrom(a, b, i - 1)
ULt(a, b) == LtFrom(a, b, Len(a))
ULe(a, b) == a = b \/ ULt(a, b)
FlipSign(a) == [a EXCEPT ![Len(a)] = (a[Len(a)] + 128) % 256]
SLt(a, b) == ULt(FlipSign(a), FlipSign(b))
SLe(a, b) == a = b \/ SLt(a, b)

\* addition / subtraction on equal widths; carry (borrow) out in .c
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, c, acc) ==
  IF i > Len(a) THEN [v |-> acc, c |-> c]
  ELSE LET s == a[i] + b[i] + c IN AddFrom(a, b, i + 1, s \div 256, Append(acc, s % 256))
Add(a, b) == AddFrom(a, b, 1, 0, <<>>)
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, c, acc) ==
  IF i > Len(a) THEN [v |-> acc, c |-> c]
  ELSE LET s == a[i] - b[i] - c
       IN SubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, (s + 256) % 256))
Sub(a, b) == SubFrom(a, b, 1, 0, <<>>)

AllZero(b) == \A i \in 1..Len(b) : b[i] = 0

\* ---- text ---------------------------------------------------------------
\* States of the UTF-8 acceptor: "0" start, "1".."3" n continuation bytes to
\* come, and the four states that restrict the first continuation byte.
Utf8Step(s, b) ==
  CASE s = "x" -> "x"
    [] s = "0" -> IF b < 128 THEN "0"
                  ELSE IF b >= 194 /\ b <= 223 THEN "1"
                  ELSE IF b = 224 THEN "e0"
                  ELSE IF b = 237 THEN "ed"
                  ELSE IF b >= 225 /\ b <= 239 THEN "2"
                  ELSE IF b = 240 THEN "f0"
                  ELSE IF b = 244 THEN "f4"
                  ELSE IF b >= 241 /\ b <= 243 THEN "3"
                  ELSE "x"
    [] s = "1" -> IF b >= 128 /\ b <= 191 THEN "0" ELSE "x"
    [] s = "2" -> IF b >= 128 /\ b <= 191 THEN "1" ELSE "x"
    [] s = "3" -> IF b >= 128 /\ b <= 191 THEN "2" ELSE "x"
    [] s = "e0" -> IF b >= 160 /\ b <= 191 THEN "1" ELSE "x"
    [] s = "ed" -> IF b >= 128 /\ b <= 159 THEN "1" ELSE "x"
    [] s = "f0" -> IF b >= 144 /\ b <= 191 THEN "2" ELSE "x"
    [] s = "f4" -> IF b >= 128 /\ b <= 143 THEN "2" ELSE "x"
Utf8Ok(b) == FoldLeft(Utf8Step, "0", b) = "0"

\* Unicode scalar values (4 bytes, little endian)
CharOk(b) == /\ b[4] = 0 /\ b[3] <= 16
             /\ ~(b[3] = 0 /\ b[2] >= 216 /\ b[2] <= 223)

\* ---- variable-length integers -------------------------------------------
\* value: 8 bytes little endian.  n bytes in all; the first byte starts with
\* n-1 one bits and a zero bit and ends with the most significant bits, the
\* other n-1 bytes follow least significant first.
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16
             [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128 [] k = 8 -> 256
VarFits(v, n) == IF n = 9 THEN TRUE
                 ELSE (\A i \in (n + 1)..8 : v[i] = 0) /\ v[n] < Pow2(8 - n)
VarLen(v) == CHOOSE n \in 1..9 : VarFits(v, n) /\ \A m \in 1..(n - 1) : ~VarFits(v, m)
VarPrefix(n) == 256 - Pow2(9 - n)
VarEncN(v, n) == IF n = 9 THEN <<255>> \o v
                 ELSE <<VarPrefix(n) + v[n]>> \o SubSeq(v, 1, n - 1)
VarEnc(v) == VarEncN(v, VarLen(v))
\* number of bytes announced by a first byte
VarLead(b) == IF b = 255 THEN 9 ELSE CHOOSE n \in 1..8 : VarPrefix(n) <= b /\ b < VarPrefix(n + 1)
VarDecN(b) == LET n == Len(b)
              IN IF n = 9 THEN SubSeq(b, 2, 9)
                 ELSE Extend(SubSeq(b, 2, n) \o <<b[1] - VarPrefix(n)>>, 8)
=============================================================================
