------------------------------- MODULE Coding -------------------------------
(* The byte coding of compiled files (Compression) and of serialised objects      *)
(* (Serialiser): numbers, weights, strings, alphabets and lists of pairs.  A      *)
(* weight is <<m, e>>: m the 30-bit mantissa with its sign, e the exponent;       *)
(* <<"inf">> and <<"-inf">> the infinities.  TLC's integers are 32-bit, so a      *)
(* 32-bit word of the file is written <<its upper 6 bits, its lower 26 bits>>.    *)
EXTENDS Base
T26 == 67108864
Byte(v, i) == (v \div (256 ^ i)) % 256

\* ---- numbers below 2^30: one to four bytes, big endian, the length in the two upper bits
MbLen(v) == IF v < 64 THEN 1 ELSE IF v < 16384 THEN 2 ELSE IF v < 4194304 THEN 3 ELSE 4
EncInt(v) == LET n == MbLen(v)
             IN  [i \in 1..n |-> IF i = 1 THEN Byte(v, n - 1) + 64 * (n - 1) ELSE Byte(v, n - i)]
\* <<value, position after it>>
DecInt(t, i) == LET n == (t[i] \div 64) + 1
                IN  <<FoldLeft(LAMBDA a, d : a * 256 + d, t[i] % 64, SubSeq(t, i + 1, i + n - 1)), i + n>>

\* ---- 32-bit words, and weights as two of them
Word(x) == <<IF x >= 0 THEN x \div T26 ELSE 64 + (x \div T26), x % T26>>
EncWord(w) == IF w[1] = 0 THEN EncInt(w[2]) ELSE EncInt(w[1] + T26) \o EncInt(w[2])
DecWord(t, i) == LET a == DecInt(t, i)
                 IN  IF a[1] < T26 THEN <<<<0, a[1]>>, a[2]>>
                     ELSE LET b == DecInt(t, a[2]) IN <<<<a[1] - T26, b[1]>>, b[2]>>
Ones == <<63, T26 - 1>>
EncWeight(x) == IF x = <<"inf">> THEN EncWord(Ones) \o EncWord(Ones)
                ELSE IF x = <<"-inf">> THEN EncWord(Ones) \o EncWord(<<63, T26 - 2>>)
                ELSE EncWord(Word(x[1])) \o EncWord(Word(x[2]))
Signed(w) == IF w[1] < 32 THEN w[1] * T26 + w[2] ELSE (w[1] - 64) * T26 + w[2]
DecWeight(t, i) == LET m == DecWord(t, i)
                       e == DecWord(t, m[2])
                   IN  <<IF m[1] = Ones /\ e[1] = Ones THEN <<"inf">>
                         ELSE IF m[1] = Ones /\ e[1] = <<63, T26 - 2>> THEN <<"-inf">>
                         ELSE <<Signed(m[1]), Signed(e[1])>>, e[2]>>

\* ---- strings: their length in characters, and the characters
EncStr(s) == EncInt(Len(s)) \o Flat([i \in 1..Len(s) |-> EncInt(s[i])])
RECURSIVE DecInts(_, _, _)
DecInts(t, i, n) == IF n = 0 THEN <<<<>>, i>>
                    ELSE LET a == DecInt(t, i)
                             r == DecInts(t, a[2], n - 1)
                         IN  <<<<a[1]>> \o r[1], r[2]>>
DecStr(t, i) == LET n == DecInt(t, i) IN DecInts(t, n[2], n[1])

\* ---- alphabets: the names of the tags without < and >, then the pairs, each symbol shifted to be positive
EncAlpha(tags, pairs) ==
  EncInt(Len(tags)) \o Flat([i \in 1..Len(tags) |-> EncStr(tags[i])])
  \o EncInt(Len(pairs)) \o Flat([i \in 1..Len(pairs) |-> EncInt(pairs[i][1] + Len(tags)) \o EncInt(pairs[i][2] + Len(tags))])

\* a new alphabet has the pair of empty symbols; including a tag or asking for a pair numbers it
AlphaTags(given) == FoldLeft(LAMBDA a, x : IF x \in RangeOf(a) THEN a ELSE Append(a, x), <<>>, given)
AlphaPairs(given) == FoldLeft(LAMBDA a, x : IF x \in RangeOf(a) THEN a ELSE Append(a, x), <<<<0, 0>>>>, given)
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

\* ---- serialised numbers: how many bytes, then the bytes (given as the eight bytes of the number)
SerInt(bs) == LET z == MinOf({i \in 1..8 : i = 8 \/ bs[i] # 0}) IN <<9 - z>> \o SubSeq(bs, z, 8)
DeserInt(t, i) == <<[k \in 1..8 |-> IF k <= 8 - t[i] THEN 0 ELSE t[i + k - (8 - t[i])]], i + 1 + t[i]>>

Eight(v) == [i \in 1..8 |-> IF i < 5 THEN 0 ELSE Byte(v, 8 - i)]

\* ---- what is written, of one item
Enc(it) == CASE it[1] = "int" -> EncInt(it[2])
             [] it[1] = "weight" -> EncWeight(it[2])
             [] it[1] = "str" -> EncStr(it[2])
             [] it[1] = "ser" -> SerInt(it[2])
             [] it[1] = "serstr" -> SerInt(Eight(Len(it[2]))) \o Flat([i \in 1..Len(it[2]) |-> SerInt(Eight(it[2][i]))])
Dec(kind, t, i) == CASE kind = "int" -> DecInt(t, i)
                     [] kind = "weight" -> DecWeight(t, i)
                     [] kind = "str" -> DecStr(t, i)
                     [] kind = "ser" -> DeserInt(t, i)
=============================================================================
