-------------------------------- MODULE Util --------------------------------
(* Words, text and sequence helpers shared by all specification modules.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))

IsPerm(m) == {m[i] : i \in DOMAIN m} = 1..Len(m)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

RECURSIVE ConcatTo(_, _)
ConcatTo(ss, n) == IF n = 0 THEN <<>> ELSE ConcatTo(ss, n - 1) \o ss[n]
Concat(ss) == ConcatTo(ss, Len(ss))

(* keep the elements of s whose index satisfies P, in order *)
RECURSIVE PickTo(_, _, _)
PickTo(s, keep, n) == IF n = 0 THEN <<>>
                      ELSE IF keep[n] THEN Append(PickTo(s, keep, n - 1), s[n])
                      ELSE PickTo(s, keep, n - 1)
Pick(s, keep) == PickTo(s, keep, Len(s))

(* ---- text ---- *)
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
PadL(s, w) == Spaces(w - Len(s)) \o s          \* right-justified
PadR(s, w) == s \o Spaces(w - Len(s))          \* left-justified
Num(n, w) == PadL(ToString(n), w)
Zero2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)

(* ---- words in hexadecimal text, two characters per byte ---- *)
HexDigit(d) == SubSeq("0123456789abcdef", d + 1, d + 1)
HexByte(b) == HexDigit(b \div 16) \o HexDigit(b % 16)
IntBytesLE(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>   \* 0 <= n
IntHex(n, endian) ==
  LET b == IntBytesLE(n) IN
  IF endian = "little" THEN HexByte(b[1]) \o HexByte(b[2]) \o HexByte(b[3]) \o HexByte(b[4])
                       ELSE HexByte(b[4]) \o HexByte(b[3]) \o HexByte(b[2]) \o HexByte(b[1])
(* 6.54321 in single precision *)
TagHex(endian) == IF endian = "little" THEN "fa61d140" ELSE "40d161fa"

(* the text Obs is exactly the concatenation of the W-character words word(1..n) starting at
   position off (0-based) *)
WordsAt(obs, off, w, n, word(_)) ==
  /\ Len(obs) >= off + n * w
  /\ \A k \in 1..n : SubSeq(obs, off + (k - 1) * w + 1, off + k * w) = word(k)

(* verdicts: the names of the clauses that fail, as text *)
RECURSIVE FailText(_, _)
FailText(cl, n) == IF n = 0 THEN ""
                   ELSE IF cl[n][2] THEN FailText(cl, n - 1)
                   ELSE LET r == FailText(cl, n - 1) IN IF r = "" THEN cl[n][1] ELSE r \o "," \o cl[n][1]
Failing(cl) == FailText(cl, Len(cl))
=============================================================================
