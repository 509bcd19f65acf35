-------------------------------- MODULE Wire --------------------------------
(* The wire formats of SPOE and of the peers protocol, byte by byte.  Bytes *)
(* are integers 0..255 in sequences; a 64 bit integer is a sequence of four *)
(* 16 bit limbs, least significant first (TLC's integers have 32 bits).     *)
(* Every encoder has a decoder; WireModel.tla has TLC check that they are   *)
(* inverse to each other.                                                   *)
EXTENDS Integers, Sequences

Zero == << 0, 0, 0, 0 >>
U(n) == << n % 65536, n \div 65536, 0, 0 >>                \* 0 <= n < 2^31
Max64 == << 65535, 65535, 65535, 65535 >>

IsSmall(x) == x[3] = 0 /\ x[4] = 0 /\ x[2] < 16384          \* fits a TLC integer
Small(x) == x[1] + 65536 * x[2]

Less(x, n) == x[2] = 0 /\ x[3] = 0 /\ x[4] = 0 /\ x[1] < n   \* n <= 65536

Shr(x, k) == [ i \in 1..4 |-> (x[i] \div 2^k) + (IF i < 4 THEN (x[i + 1] % 2^k) * 2^(16 - k) ELSE 0) ]

Sub(x, n) ==                                                 \* n < 65536, n <= x
  LET b1 == IF x[1] < n THEN 1 ELSE 0
      b2 == IF x[2] < b1 THEN 1 ELSE 0
      b3 == IF x[3] < b2 THEN 1 ELSE 0
  IN << x[1] - n + 65536 * b1, x[2] - b1 + 65536 * b2, x[3] - b2 + 65536 * b3, x[4] - b3 >>

\* sum modulo 2^64, and whether it is larger
Add(x, y) ==
  LET s1 == x[1] + y[1]
      s2 == x[2] + y[2] + s1 \div 65536
      s3 == x[3] + y[3] + s2 \div 65536
      s4 == x[4] + y[4] + s3 \div 65536
  IN [ v |-> << s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536 >>, over |-> s4 > 65535 ]

\* a byte shifted left by r bits
ShlByte(v, r) ==
  LET q == r \div 16
      p == v * 2^(r % 16)
      lo == p % 65536
      hi == p \div 65536
  IN [ v |-> [ i \in 1..4 |-> IF i = q + 1 THEN lo ELSE IF i = q + 2 THEN hi ELSE 0 ],
       over |-> (q >= 4 /\ lo # 0) \/ (q >= 3 /\ hi # 0) ]

Inc32(x) == LET s == Add(<< x[1], x[2], 0, 0 >>, U(1)).v IN << s[1], s[2], 0, 0 >>

\* low 32 bits, sign-extended; zero-extended
Sext32(x) == LET f == IF x[2] >= 32768 THEN 65535 ELSE 0 IN << x[1], x[2], f, f >>
Zext32(x) == << x[1], x[2], 0, 0 >>

\* --------------------------------------------------------------------------
\* variable length integers

RECURSIVE Enc7(_)
Enc7(x) == IF Less(x, 128) THEN << x[1] >>
           ELSE << 128 + (x[1] % 128) >> \o Enc7(Shr(Sub(x, 128), 7))

Enc(x) == IF Less(x, 240) THEN << x[1] >>
          ELSE << 240 + (x[1] % 16) >> \o Enc7(Shr(Sub(x, 240), 4))

EncN(n) == Enc(U(n))

Bad == [ ok |-> FALSE, v |-> Zero, i |-> 0, over |-> FALSE ]

\* Decodes from position i on; .i is the position following the sequence.
\* .over marks, here and below, input whose meaning is not defined (a value of
\* more than 64 bits, an unknown data type): nothing is claimed about the
\* result of decoding it.
RECURSIVE Dec7(_, _, _, _, _)
Dec7(b, i, r, v, over) ==
  IF i > Len(b) THEN Bad
  ELSE LET t == ShlByte(b[i], r)
           s == Add(v, t.v)
           o == over \/ t.over \/ s.over
       IN IF b[i] < 128 THEN [ ok |-> TRUE, v |-> s.v, i |-> i + 1, over |-> o ]
          ELSE Dec7(b, i + 1, r + 7, s.v, o)

Dec(b, i) ==
  IF i > Len(b) THEN Bad
  ELSE IF b[i] < 240 THEN [ ok |-> TRUE, v |-> U(b[i]), i |-> i + 1, over |-> FALSE ]
  ELSE Dec7(b, i + 1, 4, U(b[i]), FALSE)

\* --------------------------------------------------------------------------
\* byte strings preceded by their length

EncBytes(s) == EncN(Len(s)) \o s

NoBytes == [ ok |-> FALSE, s |-> <<>>, i |-> 0, over |-> FALSE ]

DecBytes(b, i) ==
  LET l == Dec(b, i) IN
  IF ~l.ok THEN NoBytes
  ELSE IF l.over THEN [ NoBytes EXCEPT !.over = TRUE ]
  ELSE IF ~IsSmall(l.v) \/ Small(l.v) > Len(b) - l.i + 1 THEN NoBytes
  ELSE [ ok |-> TRUE, s |-> SubSeq(b, l.i, l.i + Small(l.v) - 1), i |-> l.i + Small(l.v), over |-> FALSE ]

\* --------------------------------------------------------------------------
\* typed values of SPOE: [t type, b boolean, n integer, s bytes]

NULL == 0  BOOL == 1  INT32 == 2  UINT32 == 3  INT64 == 4  UINT64 == 5
IPV4 == 6  IPV6 == 7  TSTR == 8  TBIN == 9

Ints  == {INT32, UINT32, INT64, UINT64}
Addrs == {IPV4, IPV6}
Strs  == {TSTR, TBIN}

EncVal(e) ==
  << e.t + (IF e.t = BOOL /\ e.b THEN 16 ELSE 0) >> \o
  (CASE e.t \in Ints  -> Enc(e.n)
     [] e.t \in Addrs -> e.s
     [] e.t \in Strs  -> EncBytes(e.s)
     [] OTHER         -> <<>>)

NoVal == [ ok |-> FALSE, t |-> 0, b |-> FALSE, n |-> Zero, s |-> <<>>, i |-> 0, over |-> FALSE ]

DecVal(b, i) ==
  IF i > Len(b) THEN NoVal ELSE
  LET t == b[i] % 16
      f == (b[i] \div 16) % 2 = 1
      V(n, s, j) == [ ok |-> TRUE, t |-> t, b |-> f, n |-> n, s |-> s, i |-> j, over |-> FALSE ]
      Fixed(l) == IF Len(b) - i < l THEN NoVal ELSE V(Zero, SubSeq(b, i + 1, i + l), i + 1 + l)
  IN CASE t \in {NULL, BOOL} -> V(Zero, <<>>, i + 1)
       [] t \in Ints -> LET d == Dec(b, i + 1) IN IF d.ok THEN [ V(d.v, <<>>, d.i) EXCEPT !.over = d.over ] ELSE NoVal
       [] t = IPV4 -> Fixed(4)
       [] t = IPV6 -> Fixed(16)
       [] t \in Strs -> LET d == DecBytes(b, i + 1) IN IF d.ok THEN V(Zero, d.s, d.i) ELSE [ NoVal EXCEPT !.over = d.over ]
       [] OTHER -> NoVal

\* entries: a name and a value
EncKV(nm, e) == EncBytes(nm) \o EncVal(e)

NoKV == [ ok |-> FALSE, nm |-> <<>>, val |-> NoVal, i |-> 0, over |-> FALSE ]

DecKV(b, i) ==
  LET k == DecBytes(b, i) IN
  IF ~k.ok THEN [ NoKV EXCEPT !.over = k.over ]
  ELSE LET v == DecVal(b, k.i) IN
       IF ~v.ok THEN [ NoKV EXCEPT !.over = v.over ]
       ELSE [ ok |-> TRUE, nm |-> k.s, val |-> v, i |-> v.i, over |-> v.over ]

\* the list of n entries from i on (n < 0: as many as there are); fails if one
\* of them cannot be decoded or there are not enough
RECURSIVE DecList(_, _, _, _)
DecList(b, i, n, acc) ==
  IF n = 0 \/ (n < 0 /\ i > Len(b)) THEN [ ok |-> TRUE, list |-> acc, i |-> i, over |-> FALSE ]
  ELSE LET k == DecKV(b, i) IN
       IF ~k.ok THEN [ ok |-> FALSE, list |-> acc, i |-> i, over |-> k.over ]
       ELSE LET r == DecList(b, k.i, n - 1, Append(acc, [ nm |-> k.nm, val |-> k.val ])) IN [ r EXCEPT !.over = @ \/ k.over ]

\* the head of a message: its name and the number of its arguments
DecMsg(b, i) ==
  LET k == DecBytes(b, i) IN
  IF ~k.ok \/ k.i > Len(b) THEN [ ok |-> FALSE, nm |-> <<>>, n |-> 0, i |-> 0, over |-> k.over ]
  ELSE [ ok |-> TRUE, nm |-> k.s, n |-> b[k.i], i |-> k.i + 1, over |-> FALSE ]

\* actions
EncSet(sc, nm, e) == << 1, 3, sc >> \o EncBytes(nm) \o EncVal(e)
EncUnset(sc, nm)  == << 2, 2, sc >> \o EncBytes(nm)

\* --------------------------------------------------------------------------
\* stick tables

\* how the value of a data type is encoded
Std(t) == CASE t = 0 -> "sint"
            [] t \in {1, 2, 4, 6, 7, 9, 11, 17, 20, 25} -> "uint"
            [] t \in {3, 5, 8, 10, 12, 14, 16, 18, 21, 26} -> "freq"
            [] t \in {13, 15} -> "ull"
            [] t = 19 -> "dict"
            [] t \in {22, 23, 24} -> "array"
            [] OTHER -> "none"
DataTypes == 0..26

\* key types
KSINT == 2  KIPV4 == 4  KIPV6 == 5  KSTR == 6  KBIN == 7
KeyTypes == {KSINT, KIPV4, KIPV6, KSTR, KBIN}

\* a set of data types as the bits of an integer
Bits(ts) ==
  LET has(t) == \E i \in DOMAIN ts : ts[i].t = t
      RECURSIVE limb(_, _)
      limb(q, o) == IF o = 16 THEN 0 ELSE (IF has(16 * q + o) THEN 2^o ELSE 0) + limb(q, o + 1)
  IN << limb(0, 0), limb(1, 0), limb(2, 0), limb(3, 0) >>

RECURSIVE EncParams(_, _)
EncParams(ts, i) ==
  IF i > Len(ts) THEN <<>>
  ELSE (IF Std(ts[i].t) = "freq" THEN Enc(ts[i].c) \o Enc(ts[i].p) ELSE <<>>) \o EncParams(ts, i + 1)

\* [id, nm, kt, kl, ts, ex]; ts: [t, c, p], ascending
EncDef(d) == Enc(d.id) \o EncBytes(d.nm) \o Enc(d.kt) \o Enc(d.kl) \o Enc(Bits(d.ts)) \o Enc(d.ex) \o EncParams(d.ts, 1)

BitOf(x, t) == (x[t \div 16 + 1] \div 2^(t % 16)) % 2 = 1

NoDef == [ ok |-> FALSE, over |-> FALSE, array |-> FALSE, i |-> 0, d |-> [ id |-> Zero ] ]

RECURSIVE DecParams(_, _, _, _, _)
DecParams(b, i, bits, t, acc) ==
  IF t > 63 THEN [ ok |-> TRUE, i |-> i, ts |-> acc, over |-> FALSE, array |-> FALSE ]
  ELSE IF ~BitOf(bits, t) THEN DecParams(b, i, bits, t + 1, acc)
  ELSE CASE Std(t) = "none"  -> [ ok |-> FALSE, i |-> i, ts |-> acc, over |-> TRUE, array |-> FALSE ]
         [] Std(t) = "array" -> [ ok |-> FALSE, i |-> i, ts |-> acc, over |-> FALSE, array |-> TRUE ]
         [] Std(t) = "freq"  ->
              LET c == Dec(b, i) IN
              IF ~c.ok THEN [ ok |-> FALSE, i |-> i, ts |-> acc, over |-> FALSE, array |-> FALSE ]
              ELSE LET p == Dec(b, c.i) IN
                   IF ~p.ok THEN [ ok |-> FALSE, i |-> i, ts |-> acc, over |-> c.over, array |-> FALSE ]
                   ELSE LET r == DecParams(b, p.i, bits, t + 1, Append(acc, [ t |-> t, c |-> c.v, p |-> p.v ]))
                        IN [ r EXCEPT !.over = @ \/ c.over \/ p.over ]
         [] OTHER -> DecParams(b, i, bits, t + 1, Append(acc, [ t |-> t, c |-> Zero, p |-> Zero ]))

DecDef(b) ==
  LET id == Dec(b, 1)
      nm == IF id.ok THEN DecBytes(b, id.i) ELSE NoBytes
      kt == IF nm.ok THEN Dec(b, nm.i) ELSE Bad
      kl == IF kt.ok THEN Dec(b, kt.i) ELSE Bad
      bs == IF kl.ok THEN Dec(b, kl.i) ELSE Bad
      ex == IF bs.ok THEN Dec(b, bs.i) ELSE Bad
      over == id.over \/ nm.over \/ kt.over \/ kl.over \/ bs.over \/ ex.over
  IN IF ~ex.ok THEN [ NoDef EXCEPT !.over = over ]
     ELSE LET p == DecParams(b, ex.i, bs.v, 0, <<>>) IN
          IF ~p.ok THEN [ NoDef EXCEPT !.over = over \/ p.over, !.array = p.array ]
          ELSE [ ok |-> TRUE, over |-> over \/ p.over, array |-> FALSE, i |-> p.i,
                 d |-> [ id |-> id.v, nm |-> nm.s, kt |-> kt.v, kl |-> kl.v, ts |-> p.ts, ex |-> ex.v ] ]

\* 32 bit integers in network byte order
Enc32(x) == << x[2] \div 256, x[2] % 256, x[1] \div 256, x[1] % 256 >>
Dec32(b, i) == << b[i + 2] * 256 + b[i + 3], b[i] * 256 + b[i + 1], 0, 0 >>

Pad(s, n) == [ i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0 ]

\* keys: [n integer, s bytes]; kt and kl (small) of the definition
EncKey(kt, kl, k) ==
  CASE kt = KSINT -> Enc32(k.n)
    [] kt \in {KIPV4, KIPV6} -> k.s
    [] kt = KSTR -> EncBytes(k.s)
    [] kt = KBIN -> Pad(k.s, kl)

NoKey == [ ok |-> FALSE, n |-> Zero, s |-> <<>>, i |-> 0, over |-> FALSE ]

DecKey(kt, kl, b, i) ==
  LET fixed(l) == IF Len(b) - i + 1 < l THEN NoKey ELSE [ ok |-> TRUE, n |-> Zero, s |-> SubSeq(b, i, i + l - 1), i |-> i + l, over |-> FALSE ]
  IN CASE kt = KSINT -> IF Len(b) - i + 1 < 4 THEN NoKey ELSE [ ok |-> TRUE, n |-> Sext32(Dec32(b, i)), s |-> <<>>, i |-> i + 4, over |-> FALSE ]
       [] kt = KIPV4 -> IF kl # 4 THEN [ NoKey EXCEPT !.over = TRUE ] ELSE fixed(4)
       [] kt = KIPV6 -> IF kl # 16 THEN [ NoKey EXCEPT !.over = TRUE ] ELSE fixed(16)
       [] kt = KSTR -> LET d == DecBytes(b, i) IN [ ok |-> d.ok, n |-> Zero, s |-> d.s, i |-> d.i, over |-> d.over ]
       [] kt = KBIN -> fixed(kl)
       [] OTHER -> NoKey

\* data values: [n, p, q integers, s bytes]
EncData(t, v) ==
  CASE Std(t) \in {"sint", "uint", "ull"} -> Enc(v.n)
    [] Std(t) = "freq" -> Enc(v.n) \o Enc(v.p) \o Enc(v.q)
    [] Std(t) = "dict" ->
         IF v.n = Zero /\ v.s = <<>> THEN << 0 >>
         ELSE LET in == Enc(v.n) \o (IF v.s = <<>> THEN <<>> ELSE EncBytes(v.s)) IN EncBytes(in)

NoData == [ ok |-> FALSE, v |-> [ n |-> Zero, p |-> Zero, q |-> Zero, s |-> <<>> ], i |-> 0, over |-> FALSE ]

DecData(t, b, i) ==
  LET D(n, p, q, s, j, o) == [ ok |-> TRUE, v |-> [ n |-> n, p |-> p, q |-> q, s |-> s ], i |-> j, over |-> o ]
  IN CASE Std(t) \in {"sint", "uint", "ull"} ->
            LET d == Dec(b, i)
                x == CASE Std(t) = "sint" -> Sext32(d.v) [] Std(t) = "uint" -> Zext32(d.v) [] OTHER -> d.v
            IN IF ~d.ok THEN NoData ELSE D(x, Zero, Zero, <<>>, d.i, d.over \/ x # d.v)
       [] Std(t) = "freq" ->
            LET x == Dec(b, i)
                y == IF x.ok THEN Dec(b, x.i) ELSE Bad
                z == IF y.ok THEN Dec(b, y.i) ELSE Bad
            IN IF ~z.ok THEN NoData ELSE D(x.v, y.v, z.v, <<>>, z.i, x.over \/ y.over \/ z.over)
       [] Std(t) = "dict" ->
            LET o == DecBytes(b, i) IN
            IF ~o.ok THEN [ NoData EXCEPT !.over = o.over ]
            ELSE IF o.s = <<>> THEN D(Zero, Zero, Zero, <<>>, o.i, FALSE)
            ELSE LET id == Dec(o.s, 1) IN
                 IF ~id.ok THEN NoData
                 ELSE IF id.i > Len(o.s) THEN D(id.v, Zero, Zero, <<>>, o.i, id.over)
                 ELSE LET s == DecBytes(o.s, id.i) IN
                      IF ~s.ok THEN [ NoData EXCEPT !.over = id.over \/ s.over ]
                      \* bytes following the value inside the entry mean nothing
                      ELSE D(id.v, Zero, Zero, s.s, o.i, id.over \/ s.i # Len(o.s) + 1 \/ s.s = <<>>)
       [] OTHER -> NoData

RECURSIVE EncDatas(_, _, _)
EncDatas(ts, vs, i) == IF i > Len(vs) THEN <<>> ELSE EncData(ts[i].t, vs[i]) \o EncDatas(ts, vs, i + 1)

\* entry updates: [wid, id, wex, ex, key, data] of a table d
EncEntry(d, e) ==
  (IF e.wid THEN Enc32(e.id) ELSE <<>>) \o (IF e.wex THEN Enc32(e.ex) ELSE <<>>) \o
  EncKey(Small(d.kt), Small(d.kl), e.key) \o EncDatas(d.ts, e.data, 1)

NoEntry == [ ok |-> FALSE, over |-> FALSE, i |-> 0, e |-> [ wid |-> FALSE ] ]

RECURSIVE DecDatas(_, _, _, _, _)
DecDatas(ts, j, b, i, acc) ==
  IF j > Len(ts) THEN [ ok |-> TRUE, i |-> i, vs |-> acc, over |-> FALSE ]
  ELSE LET d == DecData(ts[j].t, b, i) IN
       IF ~d.ok THEN [ ok |-> FALSE, i |-> i, vs |-> acc, over |-> d.over ]
       ELSE LET r == DecDatas(ts, j + 1, b, d.i, Append(acc, d.v)) IN [ r EXCEPT !.over = @ \/ d.over ]

\* id0 is the id of an entry that does not carry one
DecEntry(d, wid, wex, id0, b) ==
  LET i1 == IF wid THEN 5 ELSE 1
      i2 == IF wex THEN i1 + 4 ELSE i1
  IN IF i2 > Len(b) + 1 \/ ~IsSmall(d.kt) THEN NoEntry
     ELSE LET kl == IF IsSmall(d.kl) THEN Small(d.kl) ELSE 1000000000
              k == DecKey(Small(d.kt), kl, b, i2) IN
     IF ~k.ok THEN [ NoEntry EXCEPT !.over = k.over ]
     ELSE LET v == DecDatas(d.ts, 1, b, k.i, <<>>) IN
     IF ~v.ok THEN [ NoEntry EXCEPT !.over = v.over \/ k.over ]
     ELSE [ ok |-> TRUE, over |-> k.over \/ v.over, i |-> v.i,
            e |-> [ wid |-> wid, id |-> IF wid THEN Dec32(b, 1) ELSE id0,
                    wex |-> wex, ex |-> IF wex THEN Dec32(b, i1) ELSE Zero,
                    key |-> [ n |-> k.n, s |-> k.s ], data |-> v.vs ] ]

\* --------------------------------------------------------------------------
\* SPOE frames: preceded by their length; type, flags, stream-id, frame-id and
\* the payload.  What an agent sends always is final.

FrameOf(t, sid, fid, pay) ==
  LET f == << t, 0, 0, 0, 1 >> \o Enc(sid) \o Enc(fid) \o pay IN Enc32(U(Len(f))) \o f

AGENTHELLO == 101  AGENTDISCON == 102  ACK == 103
MaxFrame == 65535

\* --------------------------------------------------------------------------
\* the first three lines of a peers connection: two words; anything; a word
\* and two integers.  [proto, ver, remote, loc bytes; pid, rel integers]

SP == 32  LF == 10  CR == 13

RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN << 48 + k >> ELSE Append(Digits(k \div 10), 48 + (k % 10))
EncInt(k) == IF k < 0 THEN << 45 >> \o Digits(-k) ELSE Digits(k)

EncHs(h) == h.proto \o << SP >> \o h.ver \o << LF >> \o h.remote \o << LF >>
            \o h.loc \o << SP >> \o EncInt(h.pid) \o << SP >> \o EncInt(h.rel) \o << LF >>

\* the position of the next end of line from i on, 0 if there is none
LineEnd(b, i) == IF \E j \in i..Len(b) : b[j] = LF THEN CHOOSE j \in i..Len(b) : b[j] = LF /\ \A k \in i..(j - 1) : b[k] # LF ELSE 0
LineOf(b, i, j) == LET l == SubSeq(b, i, j - 1) IN IF l # <<>> /\ l[Len(l)] = CR THEN SubSeq(l, 1, Len(l) - 1) ELSE l

\* the words of a line, if they are separated by single spaces and made of
\* printable characters only
Clean(l) == /\ \A i \in DOMAIN l : l[i] \in 32..126
            /\ l = <<>> \/ (l[1] # SP /\ l[Len(l)] # SP)
            /\ \A i \in 1..(Len(l) - 1) : l[i] # SP \/ l[i + 1] # SP
Words(l) == LET sp == { i \in DOMAIN l : l[i] = SP }
                RECURSIVE ws(_)
                ws(i) == IF i > Len(l) THEN <<>>
                         ELSE LET e == IF \E j \in sp : j >= i THEN CHOOSE j \in sp : j >= i /\ \A k \in sp : k < i \/ k >= j ELSE Len(l) + 1
                              IN << SubSeq(l, i, e - 1) >> \o ws(e + 1)
            IN ws(1)

IsDigit(c) == c \in 48..57
Decimal(w) == LET d == IF w # <<>> /\ w[1] = 45 THEN Tail(w) ELSE w
              IN d # <<>> /\ Len(d) <= 9 /\ (\A i \in DOMAIN d : IsDigit(d[i])) /\ (d[1] # 48 \/ Len(w) = 1)
NotANumber(w) == w = <<>> \/ ~(IsDigit(w[1]) \/ w[1] \in {43, 45})
RECURSIVE DecDigits(_, _)
DecDigits(w, acc) == IF w = <<>> THEN acc ELSE DecDigits(Tail(w), 10 * acc + w[1] - 48)
DecInt(w) == IF w[1] = 45 THEN -DecDigits(Tail(w), 0) ELSE DecDigits(w, 0)

NoHs == [ ok |-> FALSE, over |-> FALSE, i |-> 0, h |-> [ proto |-> <<>> ] ]

\* .i: the number of bytes of the three lines; .over: nothing is claimed
DecHs(b) ==
  LET e1 == LineEnd(b, 1)
      e2 == IF e1 > 0 THEN LineEnd(b, e1 + 1) ELSE 0
      e3 == IF e2 > 0 THEN LineEnd(b, e2 + 1) ELSE 0
  IN IF e3 = 0 THEN NoHs ELSE
  LET l1 == LineOf(b, 1, e1)
      l2 == LineOf(b, e1 + 1, e2)
      l3 == LineOf(b, e2 + 1, e3)
      w1 == Words(l1)
      w3 == Words(l3)
      bad == (Clean(l1) /\ Len(w1) < 2) \/ (Clean(l3) /\ (Len(w3) < 3 \/ NotANumber(w3[2]) \/ NotANumber(w3[3])))
      good == Clean(l1) /\ Clean(l3) /\ Len(w1) = 2 /\ Len(w3) = 3 /\ Decimal(w3[2]) /\ Decimal(w3[3])
  IN IF bad THEN [ NoHs EXCEPT !.i = e3 ]
     ELSE IF ~good THEN [ NoHs EXCEPT !.i = e3, !.over = TRUE ]
     ELSE [ ok |-> TRUE, over |-> FALSE, i |-> e3,
            h |-> [ proto |-> w1[1], ver |-> w1[2], remote |-> l2, loc |-> w3[1], pid |-> DecInt(w3[2]), rel |-> DecInt(w3[3]) ] ]
=============================================================================
