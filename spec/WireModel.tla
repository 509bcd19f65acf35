------------------------------ MODULE WireModel ------------------------------
(* The operators of Wire.tla checked against each other: every value that   *)
(* is encoded is decoded again, exactly and to its end, whatever follows;   *)
(* no proper prefix of an encoding can be decoded; encodings of different   *)
(* values differ.  Every case is an initial state.                          *)
EXTENDS Wire, FiniteSets, TLC

CONSTANT BUG

VARIABLE x
vars == << x >>
view == x

Pow2(k) == [ i \in 1..4 |-> IF i = k \div 16 + 1 THEN 2^(k % 16) ELSE 0 ]
Edges == { Zero, U(239), U(240), U(241), U(255), U(256), U(2287), U(2288), U(2289), U(264431), U(264432), U(33818863), U(33818864), Max64 }
         \cup { Pow2(k) : k \in 0..63 } \cup { Sub(Pow2(k), 1) : k \in 1..63 }
         \cup { Add(Pow2(k), U(239)).v : k \in 4..63 } \cup { Add(Pow2(k), U(2288)).v : k \in 4..63 }
Some == { Zero, U(1), U(239), U(240), U(2288), Sub(Pow2(32), 1), Pow2(63), Max64 }

Strs0 == { <<>>, << 0 >>, << 240, 255 >>, [ i \in 1..239 |-> 7 ], [ i \in 1..240 |-> 7 ] }
Vals == [ t : Ints, b : {FALSE}, n : Some, s : { <<>> } ]
        \cup [ t : {NULL}, b : {FALSE}, n : {Zero}, s : { <<>> } ] \cup [ t : {BOOL}, b : BOOLEAN, n : {Zero}, s : { <<>> } ]
        \cup [ t : Strs, b : {FALSE}, n : {Zero}, s : Strs0 ]
        \cup [ t : {IPV4}, b : {FALSE}, n : {Zero}, s : { << 1, 2, 3, 4 >> } ] \cup [ t : {IPV6}, b : {FALSE}, n : {Zero}, s : { [ i \in 1..16 |-> i ] } ]

Params == { Zero, U(300), Max64 }
Types1 == { << >> } \cup { << [ t |-> t, c |-> IF Std(t) = "freq" THEN c ELSE Zero, p |-> IF Std(t) = "freq" THEN U(7) ELSE Zero ] >> :
             t \in DataTypes \ {22, 23, 24}, c \in Params }
Types2 == { << [ t |-> 0, c |-> Zero, p |-> Zero ], [ t |-> 3, c |-> U(3), p |-> U(1000) ], [ t |-> 19, c |-> Zero, p |-> Zero ], [ t |-> 26, c |-> U(26), p |-> Max64 ] >> }
Def(ts, kt, kl) == [ id |-> U(300), nm |-> << 116, 98 >>, kt |-> U(kt), kl |-> U(kl), ts |-> ts, ex |-> U(60000) ]
Defs == { Def(ts, KSTR, 32) : ts \in Types1 \cup Types2 } \cup { [ Def(<<>>, KIPV4, 4) EXCEPT !.id = v, !.ex = v ] : v \in Edges }

Data(t) ==
  CASE Std(t) = "sint" -> { [ n |-> v, p |-> Zero, q |-> Zero, s |-> <<>> ] : v \in {Zero, U(300), Max64, Sext32(<< 0, 32768, 0, 0 >>)} }
    [] Std(t) = "uint" -> { [ n |-> v, p |-> Zero, q |-> Zero, s |-> <<>> ] : v \in {Zero, U(300), << 65535, 65535, 0, 0 >>} }
    [] Std(t) = "ull"  -> { [ n |-> v, p |-> Zero, q |-> Zero, s |-> <<>> ] : v \in Some }
    [] Std(t) = "freq" -> { [ n |-> v, p |-> w, q |-> v, s |-> <<>> ] : v \in {Zero, U(240), Max64}, w \in {Zero, U(240), Max64} }
    [] Std(t) = "dict" -> { [ n |-> v, p |-> Zero, q |-> Zero, s |-> s ] : v \in {U(1), U(300)}, s \in Strs0 } \cup { [ n |-> Zero, p |-> Zero, q |-> Zero, s |-> <<>> ] }
KeysOf(kt) == CASE kt = KSINT -> { [ n |-> v, s |-> <<>> ] : v \in {Zero, U(5), Max64} }
                [] kt = KIPV4 -> { [ n |-> Zero, s |-> << 1, 2, 3, 4 >> ] }
                [] kt = KIPV6 -> { [ n |-> Zero, s |-> [ i \in 1..16 |-> i ] ] }
                [] kt = KSTR -> { [ n |-> Zero, s |-> s ] : s \in Strs0 }
                [] kt = KBIN -> { [ n |-> Zero, s |-> << 0, 9, 0 >> ] }
KeyLen(kt) == CASE kt = KIPV6 -> 16 [] kt = KBIN -> 3 [] OTHER -> 4

Cases ==
  { << "int", v >> : v \in Edges }
  \cup { << "kv", nm, v >> : nm \in { <<>>, << 97 >>, [ i \in 1..240 |-> 97 ] }, v \in Vals }
  \cup { << "def", d >> : d \in Defs }
  \cup UNION { UNION { { << "ent", Def(<< [ t |-> t, c |-> Zero, p |-> Zero ] >>, kt, KeyLen(kt)), [ wid |-> i, id |-> IF i THEN << 1, 65535, 0, 0 >> ELSE Zero, wex |-> ~i, ex |-> IF i THEN Zero ELSE U(9), key |-> k, data |-> << v >> ] >> :
             i \in BOOLEAN, k \in KeysOf(kt), v \in Data(t) } : kt \in KeyTypes } : t \in {0, 1, 3, 13, 19} }

  \cup { << "hs", [ proto |-> p, ver |-> v, remote |-> r, loc |-> << 66, 46 >>, pid |-> i, rel |-> j ] >> :
             p \in { << 65 >>, << 65, 66 >> }, v \in { << 50, 46, 49 >> }, r \in { <<>>, << 97 >>, << 97, 32, 98 >> }, i \in {0, 1, 10, 999999999, -5, -100}, j \in {0, 3} }

Init == x \in Cases
Next == UNCHANGED x
Spec == Init /\ [][Next]_vars

Encoded == CASE x[1] = "int" -> (IF BUG = "nosub" /\ ~Less(x[2], 240) THEN << 240 + (x[2][1] % 16) >> \o Enc7(Shr(x[2], 4)) ELSE Enc(x[2]))
             [] x[1] = "kv"  -> EncKV(x[2], x[3])
             [] x[1] = "def" -> (IF BUG = "noparams" THEN EncDef([ x[2] EXCEPT !.ts = <<>> ]) ELSE EncDef(x[2]))
             [] x[1] = "ent" -> EncEntry(x[2], x[3])
             [] x[1] = "hs"  -> EncHs(x[2])

\* decodes b and tells whether that gives the case back and used k bytes
Decodes(b, k) ==
  CASE x[1] = "int" -> LET d == Dec(b, 1) IN d.ok /\ ~d.over /\ d.v = x[2] /\ d.i = k + 1
    [] x[1] = "kv"  -> LET d == DecKV(b, 1) IN
                       /\ d.ok /\ ~d.over /\ d.i = k + 1 /\ d.nm = x[2]
                       /\ d.val.t = x[3].t /\ d.val.n = x[3].n /\ d.val.s = x[3].s /\ (x[3].t = BOOL => d.val.b = x[3].b)
    [] x[1] = "def" -> LET d == DecDef(b) IN d.ok /\ ~d.over /\ d.d = x[2] /\ d.i = k + 1
    [] x[1] = "ent" -> LET d == DecEntry(x[2], x[3].wid, x[3].wex, Zero, b) IN d.ok /\ ~d.over /\ d.e = x[3] /\ d.i = k + 1
    [] x[1] = "hs"  -> LET d == DecHs(b) IN d.ok /\ ~d.over /\ d.h = x[2] /\ d.i = k

Fails(b) ==
  CASE x[1] = "int" -> ~Dec(b, 1).ok
    [] x[1] = "kv"  -> ~DecKV(b, 1).ok
    [] x[1] = "def" -> ~DecDef(b).ok
    [] x[1] = "ent" -> ~DecEntry(x[2], x[3].wid, x[3].wex, Zero, b).ok
    [] x[1] = "hs"  -> ~DecHs(b).ok

RoundTrip == LET b == Encoded IN Decodes(b, Len(b)) /\ Decodes(b \o << 0, 240, 1 >>, Len(b))
Prefixes == LET b == Encoded IN \A k \in 0..(Len(b) - 1) : Fails(SubSeq(b, 1, k))
Bytes == \A i \in DOMAIN Encoded : Encoded[i] \in 0..255
NoFailure == RoundTrip /\ Prefixes /\ Bytes
=============================================================================
