------------------------------- MODULE Codec -------------------------------
(* Models of the codecs' implementations, shaped like the code (offsets,    *)
(* early returns, roll-backs, growth), each composed with CodecContract:    *)
(* every call of the model is an event the contract judges.                 *)
(*                                                                          *)
(* OBJ selects the object, BUG seeds a mistake the contract has to reject.  *)
EXTENDS CodecContract, Json

CONSTANTS OBJ, BUG, STEPS

VARIABLES im, st, n, hist
vars == << im, st, n, hist >>
view == << im, st, n >>

Do(i2, e, h) == im' = i2 /\ st' = Apply(st, e) /\ n' = n + 1 /\ hist' = Append(hist, h)
Two(i2, e, f, h) == im' = i2 /\ st' = Apply(Apply(st, e), f) /\ n' = n + 1 /\ hist' = Append(hist, h)

RECURSIVE Strings(_, _)
Strings(alpha, l) == IF l = 0 THEN { <<>> } ELSE LET s == Strings(alpha, l - 1) IN s \cup { Append(t, c) : t \in { t \in s : Len(t) = l - 1 }, c \in alpha }

\* --------------------------------------------------------------------------
\* varints: the loops of PutVarint and Varint

Pow2(k) == [ i \in 1..4 |-> IF i = k \div 16 + 1 THEN 2^(k % 16) ELSE 0 ]
Edges == { Zero, U(239), U(240), U(241), U(255), U(256), U(2287), U(2288), U(2289), U(264431), U(264432), U(33818863), U(33818864), Max64 }
         \cup { Pow2(k) : k \in 0..63 } \cup { Sub(Pow2(k), 1) : k \in 1..63 }
         \cup { Add(Pow2(k), U(239)).v : k \in 4..63 } \cup { Add(Pow2(k), U(2288)).v : k \in 4..63 } \cup { Sub(Max64, k) : k \in 0..20 }

RECURSIVE PutLoop(_, _, _)
PutLoop(i, buf, c) ==
  IF ~Less(i, 128)
  THEN IF Len(buf) > c - 1 THEN [ out |-> <<>>, err |-> TRUE, pan |-> FALSE ]
       ELSE PutLoop(Shr(Sub(i, 128), 7), Append(buf, 128 + (i[1] % 128)), c)
  ELSE IF Len(buf) > c - 1 THEN [ out |-> <<>>, err |-> BUG # "nocheck", pan |-> BUG = "nocheck" ]
       ELSE [ out |-> Append(buf, i[1]), err |-> FALSE, pan |-> FALSE ]

PutV(v, c) ==
  LET lim == IF BUG = "limit" THEN 241 ELSE 240 IN
  IF c = 0 THEN [ out |-> <<>>, err |-> TRUE, pan |-> FALSE ]
  ELSE IF Less(v, lim) THEN [ out |-> << v[1] >>, err |-> FALSE, pan |-> FALSE ]
  ELSE PutLoop(Shr(Sub(v, 240), 4), << 240 + (v[1] % 16) >>, c)

RECURSIVE GetLoop(_, _, _, _)
GetLoop(b, off, r, val) ==
  IF off > Len(b) - 1 THEN [ v |-> Zero, n |-> 0, err |-> TRUE ]
  ELSE LET v == Add(val, ShlByte(b[off + 1], r).v).v IN
       IF b[off + 1] < 128 THEN [ v |-> v, n |-> off + 1, err |-> FALSE ]
       ELSE GetLoop(b, off + 1, IF BUG = "shift" THEN r + 8 ELSE r + 7, v)
GetV(b) ==
  IF Len(b) = 0 THEN [ v |-> Zero, n |-> 0, err |-> TRUE ]
  ELSE IF b[1] < 240 THEN [ v |-> U(b[1]), n |-> 1, err |-> FALSE ]
  ELSE GetLoop(b, 1, 4, U(b[1]))

VarintNext ==
  /\ n = 0
  /\ \/ \E v \in Edges, c \in 0..11 :
          LET r == PutV(v, c) IN
          Do(im, [ e |-> "vput", v |-> v, cap |-> c, n |-> Len(r.out), err |-> r.err, pan |-> r.pan, out |-> r.out, guard |-> TRUE ], << "vput" >>)
     \/ \E v \in Edges : \E cut \in 0..Len(Enc(v)) :
          LET b == SubSeq(Enc(v), 1, cut)
              r == GetV(b)
          IN Do(im, [ e |-> "vget", src |-> "buf", b |-> b, v |-> r.v, n |-> r.n, err |-> r.err, pan |-> FALSE ], << "vget" >>)
     \/ \E b \in Strings({0, 127, 128, 239, 240, 255}, 4) :
          LET r == GetV(b) IN
          Do(im, [ e |-> "vget", src |-> "buf", b |-> b, v |-> r.v, n |-> r.n, err |-> r.err, pan |-> FALSE ], << "vget" >>)

\* --------------------------------------------------------------------------
\* the key-value scanner: im = [buf, left, err]

Rest(b, k) == SubSeq(b, k + 1, Len(b))
NoE == [ nm |-> <<>>, t |-> 0, b |-> FALSE, n |-> Zero, s |-> <<>> ]
Stop(i, e) == [ im |-> [ i EXCEPT !.err = TRUE ], ret |-> FALSE, ent |-> e ]

ScanNext(i) ==
  IF i.err THEN [ im |-> i, ret |-> FALSE, ent |-> NoE ]
  ELSE IF (i.left = 0 /\ BUG # "nocount") \/ Len(i.buf) = 0
  THEN IF i.left > 0 /\ BUG # "short" THEN Stop(i, NoE) ELSE [ im |-> i, ret |-> FALSE, ent |-> NoE ]
  ELSE LET i1 == [ i EXCEPT !.left = @ - 1 ]
           l  == GetV(i.buf)
       IN IF l.err THEN Stop(i1, NoE) ELSE
       LET b1 == Rest(i.buf, l.n) IN
       IF ~IsSmall(l.v) \/ Small(l.v) >= Len(b1) THEN Stop(i1, NoE) ELSE
       LET nm == SubSeq(b1, 1, Small(l.v))
           tb == b1[Small(l.v) + 1]
           b2 == Rest(b1, Small(l.v) + 1)
           t  == tb % 16
           E(nn, ss, k) == [ im |-> [ i1 EXCEPT !.buf = Rest(b2, k) ], ret |-> TRUE,
                             ent |-> [ nm |-> nm, t |-> t, b |-> (tb \div 16) % 2 = 1, n |-> nn, s |-> ss ] ]
       IN CASE t \in {NULL, BOOL} -> E(Zero, <<>>, 0)
            [] t \in Ints -> LET v == GetV(b2) IN IF v.err THEN Stop(i1, NoE) ELSE E(v.v, <<>>, v.n)
            [] t = IPV4 -> IF Len(b2) < (IF BUG = "addr" THEN 3 ELSE 4) THEN Stop(i1, NoE) ELSE E(Zero, SubSeq(b2, 1, IF Len(b2) < 4 THEN 3 ELSE 4), IF Len(b2) < 4 THEN 3 ELSE 4)
            [] t = IPV6 -> IF Len(b2) < 16 THEN Stop(i1, NoE) ELSE E(Zero, SubSeq(b2, 1, 16), 16)
            [] t \in {TSTR, TBIN} ->
                 LET v == GetV(b2) IN
                 IF v.err THEN Stop(i1, NoE)
                 ELSE IF ~IsSmall(v.v) \/ Small(v.v) > Len(b2) - v.n THEN Stop(i1, NoE)
                 ELSE E(Zero, SubSeq(b2, v.n + 1, v.n + Small(v.v)), v.n + Small(v.v))
            [] OTHER -> Stop(i1, NoE)

KEv(r) ==
  LET e == r.ent
      g == IF r.ret THEN GoVal(e) ELSE [ g |-> "", n |-> Zero, s |-> <<>> ]
  IN [ e |-> "knext", ret |-> r.ret, err |-> r.im.err, rem |-> Len(r.im.buf), nm |-> e.nm, t |-> e.t, vb |-> e.b, vi |-> e.n, vs |-> e.s,
       g |-> g.g, gn |-> g.n, gs |-> g.s, pan |-> FALSE ]

RECURSIVE ScanAll(_)
ScanAll(i) == LET r == ScanNext(i) IN IF r.ret THEN ScanAll(r.im) ELSE r.im

\* every string over a few bytes that make entries of all kinds likely, and
\* entries that need more
Inputs == Strings({0, 1, 2, 8, 17, 240}, 4)
          \cup { SubSeq(EncKV(<< 7 >>, [ t |-> t, b |-> TRUE, n |-> U(5000), s |-> s ]) \o [ x \in 1..12 |-> 0 ], 1, c) :
                   t \in 0..9, s \in { << 1, 2, 3, 4 >> }, c \in 0..12 }

ScanStep ==
  \/ /\ n = 0
     /\ \E b \in Inputs, c \in {-1, 0, 1, 2} :
          Do([ buf |-> b, left |-> c, err |-> FALSE ], [ e |-> "knew", b |-> b, n |-> c ], << "knew", b, c >>)
  \/ /\ n > 0
     /\ \/ LET r == ScanNext(im) IN Do(r.im, KEv(r), << "knext" >>)
        \/ LET i == ScanAll(im) IN Do(i, [ e |-> "kdisc", err |-> i.err, rem |-> Len(i.buf), pan |-> FALSE ], << "kdisc" >>)

\* --------------------------------------------------------------------------
\* the key-value writer: im = [data, off, cap]; entries are written piece by
\* piece and rolled back when a piece does not fit

PutBytesM(room, s) == LET l == EncN(Len(s)) IN IF Len(l) > room \/ Len(l) + Len(s) > room THEN [ err |-> TRUE, out |-> <<>> ] ELSE [ err |-> FALSE, out |-> l \o s ]

WriteM(i, nm, t, v) ==
  LET room == i.cap - Len(i.d)
      k == PutBytesM(room, nm)
      undo(part) == [ im |-> [ i EXCEPT !.d = IF BUG = "norollback" THEN @ \o part ELSE @ ], err |-> TRUE, pan |-> FALSE ]
  IN IF k.err THEN undo(<<>>)
     ELSE IF Len(k.out) >= room THEN (IF BUG = "typebyte" THEN [ im |-> i, err |-> FALSE, pan |-> TRUE ] ELSE undo(<<>>))
     ELSE LET key == Append(k.out, t) IN
          IF Len(key) + Len(v) > room THEN undo(key)
          ELSE [ im |-> [ i EXCEPT !.d = @ \o key \o v ], err |-> FALSE, pan |-> FALSE ]

WriteStep ==
  \/ /\ n = 0
     /\ \E c \in 0..9, o \in 0..2 :
          o <= c /\ LET d == [ x \in 1..o |-> 99 ] IN Do([ d |-> d, cap |-> c ], [ e |-> "wnew", d |-> d, cap |-> c ], << "wnew", c, o >>)
  \/ /\ n > 0
     /\ \E nm \in { <<>>, << 97 >>, << 97, 98 >> }, x \in { << "null", NULL >>, << "bool", BOOL >>, << "string", TSTR >>, << "int64", INT64 >>, << "addr", IPV4 >>, << "inv", 0 >> } :
          LET s == IF x[1] = "addr" THEN << 1, 2, 3, 4 >> ELSE IF x[1] = "string" THEN << 5 >> ELSE <<>>
              v == IF x[1] = "int64" THEN U(5000) ELSE Zero
              val == CASE x[1] = "string" -> EncBytes(s) [] x[1] = "int64" -> Enc(v) [] x[1] = "addr" -> s [] OTHER -> <<>>
              t == IF x[1] = "bool" THEN 17 ELSE x[2]
              r == IF x[1] = "inv" THEN [ im |-> im, err |-> TRUE, pan |-> FALSE ] ELSE WriteM(im, nm, t, val)
          IN Do(r.im, [ e |-> "wset", k |-> IF x[1] = "inv" THEN "addr" ELSE x[1], nm |-> nm, vb |-> TRUE, vi |-> v, vs |-> s, inv |-> x[1] = "inv",
                        err |-> r.err, pan |-> r.pan, off |-> Len(r.im.d), out |-> r.im.d, guard |-> TRUE ], << "wset", x[1], nm >>)

\* --------------------------------------------------------------------------
\* the action writer: im = [buf, off]; the buffer grows by doubling

GrowM(i, k) ==
  IF k <= Len(i.buf) - i.off THEN i
  ELSE LET size == IF i.off + k > 2 * Len(i.buf) THEN i.off + k ELSE 2 * Len(i.buf) IN
       [ i EXCEPT !.buf = [ x \in 1..size |-> IF x <= (IF BUG = "growcopy" THEN 0 ELSE i.off) THEN i.buf[x] ELSE 0 ] ]
Poke(i, s) == [ i EXCEPT !.buf = [ x \in DOMAIN @ |-> IF x > i.off /\ x <= i.off + Len(s) THEN s[x - i.off] ELSE @[x] ], !.off = @ + Len(s) ]

ActM(i, sc, nm, x, val) ==
  LET head == << IF x[1] = "unset" THEN 2 ELSE 1, IF x[1] = "unset" THEN 2 ELSE 3, sc >> \o EncBytes(nm)
      i1 == Poke(GrowM(i, Len(head)), head)
  IN IF x[1] = "unset" THEN i1
     ELSE Poke(GrowM(i1, 1 + Len(val)), << IF x[1] = "bool" THEN 17 ELSE x[2] >> \o val)

ActStep ==
  \/ /\ n = 0
     /\ \E c \in {0, 1, 3, 8, 40}, o \in {0, 1, 3} :
          o <= c /\ LET b == [ y \in 1..c |-> IF y <= o THEN 99 ELSE 98 ] IN
          Do([ buf |-> b, off |-> o ], [ e |-> "anew", d |-> SubSeq(b, 1, o), cap |-> c ], << "anew", c, o >>)
  \/ /\ n > 0
     /\ \E nm \in { <<>>, << 97, 98 >> }, x \in { << "unset", 0 >>, << "null", NULL >>, << "bool", BOOL >>, << "string", TSTR >>, << "int64", INT64 >>, << "addr", IPV6 >>, << "inv", 0 >> } :
          LET s == IF x[1] = "addr" THEN [ y \in 1..16 |-> y ] ELSE IF x[1] = "string" THEN << 5, 6, 7 >> ELSE <<>>
              v == IF x[1] = "int64" THEN Max64 ELSE Zero
              val == CASE x[1] = "string" -> EncBytes(s) [] x[1] = "int64" -> Enc(v) [] x[1] = "addr" -> s [] OTHER -> <<>>
              i2 == IF x[1] = "inv" THEN (IF BUG = "header" THEN ActM(im, 2, nm, << "unset", 0 >>, <<>>) ELSE im) ELSE ActM(im, 2, nm, x, val)
          IN Do(i2, [ e |-> "aset", k |-> IF x[1] = "inv" THEN "addr" ELSE x[1], sc |-> 2, nm |-> nm, vb |-> TRUE, vi |-> v, vs |-> s, inv |-> x[1] = "inv",
                      err |-> x[1] = "inv", pan |-> FALSE, off |-> i2.off, out |-> SubSeq(i2.buf, 1, i2.off) ], << "aset", x[1], nm >>)

\* --------------------------------------------------------------------------
\* unmarshalling: fields are assigned entry by entry, pointers never seen are
\* cleared at the end

UFields == { << [ key |-> << 1 >>, k |-> k1, ptr |-> p1, tag |-> t1 ], [ key |-> << 2 >>, k |-> k2, ptr |-> p2, tag |-> TRUE ] >> :
               k1 \in {"string", "int32"}, p1 \in BOOLEAN, t1 \in BOOLEAN, k2 \in {"bytes"}, p2 \in BOOLEAN }
UEntries == LET es == { [ nm |-> << k >>, val |-> [ t |-> t, b |-> FALSE, n |-> U(3), s |-> << 5 >> ] ] : k \in {1, 2, 3}, t \in {NULL, INT32, TSTR} }
            IN { <<>> } \cup { << x >> : x \in es } \cup { << x, y >> : x \in es, y \in es }

RECURSIVE EncList(_)
EncList(l) == IF l = <<>> THEN <<>> ELSE EncKV(l[1].nm, l[1].val) \o EncList(Drop(l, 1))

RECURSIVE Assign(_, _, _, _)
Assign(f, l, vals, seen) ==
  IF l = <<>>
  THEN [ err |-> FALSE, v |-> [ j \in DOMAIN vals |-> IF f[j].ptr /\ f[j].tag /\ j \notin seen /\ BUG # "noclear" THEN Nil ELSE vals[j] ] ]
  ELSE LET js == { j \in DOMAIN f : f[j].tag /\ f[j].key = l[1].nm } IN
       IF js = {} THEN Assign(f, Drop(l, 1), vals, seen)
       ELSE LET j == CHOOSE j \in js : TRUE
                v == l[1].val
            IN IF BUG = "firstwins" /\ j \in seen THEN Assign(f, Drop(l, 1), vals, seen)
               ELSE IF f[j].ptr /\ v.t = NULL THEN Assign(f, Drop(l, 1), [ vals EXCEPT ![j] = Nil ], seen \cup {j})
               ELSE IF ~Fits(f[j].k, v.t) /\ ~(BUG = "loose" /\ v.t = TSTR) THEN [ err |-> TRUE, v |-> vals ]
               ELSE Assign(f, Drop(l, 1), [ vals EXCEPT ![j] = Conv(f[j].k, v) ], seen \cup {j})

UnStep ==
  /\ n = 0
  /\ \E f \in UFields, l \in UEntries, cut \in {0, 1} :
       LET b == SubSeq(EncList(l), 1, Len(EncList(l)) - (IF l = <<>> THEN 0 ELSE cut))
           bef == << [ nil |-> FALSE, n |-> Zero, s |-> << 9 >> ], [ nil |-> FALSE, n |-> Zero, s |-> << 8 >> ] >>
           d == DecList(b, 1, Len(l), <<>>)
           r == Assign(f, d.list, bef, {})
       IN Do(im, [ e |-> "un", b |-> b, n |-> Len(l), f |-> f, bef |-> bef, aft |-> r.v, later |-> r.v, kept |-> IF BUG = "reuse" THEN r.v ELSE bef, err |-> r.err \/ ~d.ok, pan |-> FALSE ], << "un" >>)

\* --------------------------------------------------------------------------
\* the slice buffer: im = [buf, ro, wo]

BufEv(o, k, d, i, more) ==
  [ e |-> "buf", o |-> o, n |-> k, d |-> d, q |-> SubSeq(i.buf, i.ro + 1, i.wo), len |-> i.wo - i.ro, wl |-> Len(i.buf) - i.wo,
    out |-> more, nlen |-> IF o = "writen" THEN Len(d) ELSE 0, pan |-> FALSE ]

PutAt(b, o, d) == [ x \in DOMAIN b |-> IF x > o /\ x <= o + Len(d) THEN d[x - o] ELSE b[x] ]
Fresh(k) == [ x \in 1..k |-> (10 * (n + 1) + x) % 256 ]

BufStep ==
  \/ /\ n = 0
     /\ \E k \in 0..3 :
          \/ LET i == [ buf |-> [ x \in 1..k |-> 0 ], ro |-> 0, wo |-> 0 ] IN Do(i, BufEv("new", k, <<>>, i, <<>>), << "new", k >>)
          \/ LET i == [ buf |-> Fresh(k), ro |-> 0, wo |-> k ] IN Do(i, BufEv("with", 0, Fresh(k), i, <<>>), << "with", k >>)
  \/ /\ n > 0
     /\ \/ \E k \in 0..2, o \in {"write", "writen"} :
             /\ k <= Len(im.buf) - im.wo
             /\ LET i == [ im EXCEPT !.buf = PutAt(@, im.wo, Fresh(k)), !.wo = @ + k ] IN Do(i, BufEv(o, 0, Fresh(k), i, <<>>), << o, k >>)
        \/ \E k \in 0..2, o \in {"readn", "advr"} :
             /\ k <= im.wo - im.ro
             /\ LET i == [ im EXCEPT !.ro = @ + k ] IN Do(i, BufEv(o, k, <<>>, i, SubSeq(im.buf, im.ro + 1, im.ro + k)), << o, k >>)
        \/ \E k \in 1..2 :
             /\ k <= im.ro
             /\ LET i == [ im EXCEPT !.ro = @ - k ] IN Do(i, BufEv("back", k, <<>>, i, <<>>), << "back", k >>)
        \/ \E k \in 0..3 :
             LET keep == IF BUG = "growunread" THEN im.ro ELSE 0
                 size == (IF BUG = "growlen" THEN im.wo - im.ro ELSE im.wo) + k
                 i == IF k <= Len(im.buf) - im.wo THEN im
                      ELSE [ im EXCEPT !.buf = [ x \in 1..size |-> IF x <= im.wo /\ x > keep /\ x <= Len(im.buf) THEN im.buf[x] ELSE 0 ] ]
             IN i.wo <= Len(i.buf) /\ Do(i, BufEv("grow", k, <<>>, i, <<>>), << "grow", k >>)
        \/ LET i == [ im EXCEPT !.ro = 0, !.wo = IF BUG = "reset" THEN @ ELSE 0 ] IN Do(i, BufEv("reset", 0, <<>>, i, <<>>), << "reset", 0 >>)

\* --------------------------------------------------------------------------
\* frames: a pooled buffer gets the header and the entries, which is then
\* written in pieces: length, buffer, actions.  im = [pool: what the buffers
\* in the pool still hold]

RECURSIVE Pieces(_, _, _)
Pieces(ps, out, c) ==
  IF ps = <<>> THEN [ out |-> out, n |-> Len(out), err |-> FALSE ]
  ELSE LET room == IF c < 0 THEN Len(ps[1]) ELSE c - Len(out)
           w == IF Len(ps[1]) <= room THEN ps[1] ELSE Take(ps[1], room)
       IN IF Len(w) < Len(ps[1])
          THEN [ out |-> out \o w, n |-> IF BUG = "lastcount" THEN Len(w) ELSE Len(out \o w), err |-> BUG # "errlost" ]
          ELSE Pieces(Tail(ps), out \o w, c)

FrameStep ==
  LET hd(t, sid, fid) == im.pool \o << t, 0, 0, 0, 1 >> \o Enc(sid) \o Enc(fid)
      sized(b, pay) == << Enc32(U(Len(b) + Len(pay))), b >> \o (IF pay = <<>> THEN <<>> ELSE << pay >>)
      back(b, failed) == [ pool |-> IF BUG = "noreset" /\ failed THEN b ELSE <<>> ]
      keep == IF n = 0 THEN [ pool |-> <<>> ] ELSE im
      nothing(cb) == [ out |-> <<>>, n |-> 0, err |-> cb # "panic" ]
      ev(e, r, c, more) == more @@ [ e |-> e, out |-> r.out, n |-> r.n, err |-> r.err, wcap |-> c ]
  IN IF n = 0 THEN Do(keep, [ e |-> "knew", b |-> <<>>, n |-> 0 ], << "start" >>) ELSE
     \/ \E sid \in { Zero, Max64 }, acts \in { <<>>, EncUnset(1, << 97 >>) }, cb \in {"ok", "err", "panic"}, c \in {-1, 0, 3, 4, 9, 12} :
          LET b == hd(ACK, sid, U(7))
              r == IF cb = "ok" THEN Pieces(sized(b, acts), <<>>, c)
                   ELSE IF BUG = "early" THEN [ nothing(cb) EXCEPT !.out = b, !.n = Len(b) ] ELSE nothing(cb)
          IN Do(back(b, cb # "ok"), ev("fack", r, c, [ sid |-> sid, fid |-> U(7), acts |-> acts, alen |-> Len(acts), cb |-> cb, pan |-> cb = "panic" ]), << "fack", cb, c >>)
     \/ \E c \in {-1, 0, 6, 30}, code \in {0, 5, 99} :
          LET b == hd(AGENTDISCON, Zero, Zero) \o EncKV(KStatus, U32Val(U(code))) \o EncKV(KMessage, StrVal(<< 98 >>))
              r == Pieces(sized(b, <<>>), <<>>, c)
          IN Do(back(b, FALSE), ev("fdisc", r, c, [ code |-> U(code), msg |-> << 98 >>, cb |-> "ok", pan |-> FALSE ]), << "fdisc", c >>)
     \/ \E c \in {-1, 5, 50}, caps \in { <<>>, << << 97 >> >>, << << 97 >>, << 98, 99 >> >> } :
          LET b == hd(AGENTHELLO, Zero, Zero) \o EncKV(KVersion, StrVal(<< 50 >>)) \o EncKV(KMaxSize, U32Val(U(300)))
                   \o EncKV(KCaps, StrVal(IF BUG = "nojoin" /\ caps # <<>> THEN caps[1] ELSE Joined(caps, 1)))
              r == Pieces(sized(b, <<>>), <<>>, c)
          IN Do(back(b, FALSE), ev("fhello", r, c, [ ver |-> << 50 >>, mfs |-> U(300), caps |-> caps, cb |-> "ok", pan |-> FALSE ]), << "fhello", c >>)

\* --------------------------------------------------------------------------
\* handshakes: read byte by byte, so that nothing that follows is lost

RECURSIVE ReadLines(_, _, _, _)
ReadLines(b, i, cur, lines) ==
  IF Len(lines) = 3 THEN [ ok |-> TRUE, lines |-> lines, used |-> i ]
  ELSE IF i = Len(b) THEN [ ok |-> FALSE, lines |-> lines, used |-> i ]
  ELSE LET c == b[i + 1] IN
       IF c = LF THEN ReadLines(b, i + 1, <<>>, Append(lines, IF BUG # "nocr" /\ cur # <<>> /\ cur[Len(cur)] = CR THEN Take(cur, Len(cur) - 1) ELSE cur))
       ELSE ReadLines(b, i + 1, Append(cur, c), lines)

\* words as fmt.Sscanf takes them
RECURSIVE Scan(_, _)
Scan(l, acc) ==
  IF l = <<>> THEN acc
  ELSE IF Head(l) = SP THEN Scan(Tail(l), IF acc # <<>> /\ acc[Len(acc)] = <<>> THEN acc ELSE Append(acc, <<>>))
  ELSE Scan(Tail(l), [ acc EXCEPT ![Len(acc)] = Append(@, Head(l)) ])
Split(l) == SelectSeq(Scan(l, << <<>> >>), LAMBDA w : w # <<>>)

NoH == [ proto |-> <<>>, ver |-> <<>>, remote |-> <<>>, loc |-> <<>>, pid |-> 0, rel |-> 0 ]
ReadHs(b) ==
  LET r == ReadLines(b, 0, <<>>, <<>>)
      used == IF BUG = "ahead" THEN Len(b) ELSE r.used
      fail == [ h |-> NoH, err |-> TRUE, used |-> used ]
  IN IF ~r.ok THEN (IF BUG = "short" /\ Len(r.lines) = 2 THEN [ fail EXCEPT !.err = FALSE ] ELSE fail)
     ELSE LET w1 == Split(r.lines[1])
              w3 == Split(r.lines[3])
          IN IF Len(w1) < 2 \/ Len(w3) < 2 THEN fail
             ELSE IF Len(w3) < 3 THEN (IF BUG = "norel" THEN [ fail EXCEPT !.err = FALSE ] ELSE fail)
             ELSE IF NotANumber(w3[2]) \/ NotANumber(w3[3]) THEN fail
             ELSE [ h |-> [ proto |-> w1[1], ver |-> w1[2], remote |-> r.lines[2], loc |-> w3[1], pid |-> DecInt(w3[2]), rel |-> DecInt(w3[3]) ],
                    err |-> FALSE, used |-> used ]

HLines == { << <<65, 32, 50>>, <<>>, <<66, 32, 49, 50, 32, 48>> >>, << <<65, 32, 50>>, <<67, 32, 68>>, <<66, 32, 45, 55, 32, 49, 48>> >>,
            << <<65>>, <<67>>, <<66, 32, 49, 32, 48>> >>, << <<>>, <<67>>, <<66, 32, 49, 32, 48>> >>,
            << <<65, 32, 50>>, <<67>>, <<66, 32, 49>> >>, << <<65, 32, 50>>, <<67>>, <<66, 32, 120, 32, 48>> >>, << <<65, 32, 50>>, <<67>>, <<>> >> }
HStep ==
  /\ n = 0
  /\ \/ \E ls \in HLines, nl \in { << LF >>, << CR, LF >> }, more \in { <<>>, << 48, LF, 49 >> } :
          LET b == ls[1] \o nl \o ls[2] \o nl \o ls[3] \o nl \o more IN
          \E cut \in 0..Len(b) :
            LET r == ReadHs(Take(b, cut)) IN
            Do(im, [ e |-> "hget", b |-> Take(b, cut), h |-> r.h, n |-> r.used, used |-> r.used, err |-> r.err, pan |-> FALSE ], << "hget" >>)
     \/ \E pid \in {0, 7, 10, 4194304, -12}, rem \in { <<>>, << 97, 32, 98 >> }, c \in {-1} \cup 0..16 :
          LET h == [ proto |-> << 65 >>, ver |-> << 50 >>, remote |-> rem, loc |-> << 66 >>, pid |-> pid, rel |-> 3 ]
              r == Pieces(<< h.proto \o << SP >> \o h.ver \o << LF >>, rem \o << LF >>, h.loc \o << SP >> \o EncInt(pid) \o << SP >> \o EncInt(3) \o << LF >> >>, <<>>, c)
          IN Two(im, [ e |-> "hput", h |-> h, wcap |-> c, out |-> r.out, n |-> r.n, err |-> r.err, cb |-> "ok", pan |-> FALSE ],
                 LET q == ReadHs(r.out) IN [ e |-> "hget", b |-> r.out, h |-> q.h, n |-> q.used, used |-> q.used, err |-> q.err, pan |-> FALSE ], << "hput" >>)

\* --------------------------------------------------------------------------

Init == im = [ none |-> TRUE ] /\ st = Start /\ n = 0 /\ hist = <<>>

Next ==
  /\ n < STEPS
  /\ CASE OBJ = "varint" -> VarintNext
       [] OBJ = "kvs" -> ScanStep
       [] OBJ = "kvw" -> WriteStep
       [] OBJ = "act" -> ActStep
       [] OBJ = "un"  -> UnStep
       [] OBJ = "buf" -> BufStep
       [] OBJ = "frm" -> FrameStep
       [] OBJ = "hs"  -> HStep

Spec == Init /\ [][Next]_vars

NoFailure == st.fails = {}

\* prints the calls, for the harness to make them
Script == (n = STEPS) => PrintT(<< "SCRIPT", ToJson(hist) >>)
=============================================================================
