--------------------------- MODULE CodecContract ---------------------------
(* What the public functions of pkg/encoding, pkg/buffer and                *)
(* peers/sticktable have to return, as a deterministic monitor of calls:    *)
(* Apply(st, e) is the state of the objects involved after call e.          *)
(* e.pan: the call panicked; e.err: it returned an error.                   *)
EXTENDS Wire, FiniteSets, TLC

Broken(rs) == UNION { r[2] : r \in { r \in rs : r[1] } }
F(st, rules) == [st EXCEPT !.fails = @ \cup rules]
Clear(st) == [st EXCEPT !.fails = {}]

NoKVS == [ on |-> FALSE, b |-> <<>>, i |-> 1, left |-> 0, stop |-> FALSE, wild |-> FALSE, cur |-> <<>> ]
NoMS  == [ on |-> FALSE, b |-> <<>>, i |-> 1, stop |-> FALSE, wild |-> FALSE, open |-> FALSE ]
NoWr  == [ on |-> FALSE, d |-> <<>>, cap |-> 0 ]
NoBuf == [ r |-> <<>>, q |-> <<>>, room |-> 0 ]

Start == [ k |-> NoKVS, m |-> NoMS, a |-> NoWr, w |-> NoWr, b |-> NoBuf, fails |-> {} ]

\* --------------------------------------------------------------------------
\* C10: variable length integers

\* PutVarint(v) into a buffer of e.cap bytes
VPut(st, e) ==
  LET enc == Enc(e.v) IN
  F(st, Broken({ << e.pan, {"C10.panic"} >>,
                 << ~e.guard, {"C10.beyond"} >>,
                 << ~e.pan /\ Len(enc) <= e.cap /\ (e.err \/ e.n # Len(enc) \/ e.out # enc), {"C10.encode"} >>,
                 << ~e.pan /\ Len(enc) > e.cap /\ ~e.err, {"C10.noSpace"} >> }))

\* Varint and ReadVarint; e.n is the number of bytes reported or consumed
VGet(st, e) ==
  LET d == Dec(e.b, 1) IN
  F(st, Broken({ << e.pan, {"C10.panic"} >>,
                 << ~e.pan /\ d.ok /\ ~d.over /\ (e.err \/ e.v # d.v \/ e.n # d.i - 1), {"C10.decode"} >>,
                 << ~e.pan /\ ~d.ok /\ ~e.err, {"C10.truncated"} >> }))

\* --------------------------------------------------------------------------
\* C11: scanning

KNew(st, e) == [st EXCEPT !.k = [ NoKVS EXCEPT !.on = TRUE, !.b = e.b, !.left = e.n ]]

\* the value of an entry as Go sees it: its type and the value itself
GoVal(v) ==
  CASE v.t = NULL   -> [ g |-> "nil", n |-> Zero, s |-> <<>> ]
    [] v.t = BOOL   -> [ g |-> "bool", n |-> U(IF v.b THEN 1 ELSE 0), s |-> <<>> ]
    [] v.t = INT32  -> [ g |-> "int32", n |-> Sext32(v.n), s |-> <<>> ]
    [] v.t = UINT32 -> [ g |-> "uint32", n |-> Zext32(v.n), s |-> <<>> ]
    [] v.t = INT64  -> [ g |-> "int64", n |-> v.n, s |-> <<>> ]
    [] v.t = UINT64 -> [ g |-> "uint64", n |-> v.n, s |-> <<>> ]
    [] v.t \in Addrs -> [ g |-> "netip.Addr", n |-> Zero, s |-> v.s ]
    [] v.t = TSTR -> [ g |-> "string", n |-> Zero, s |-> v.s ]
    [] v.t = TBIN -> [ g |-> "[]uint8", n |-> Zero, s |-> v.s ]

EntryIs(e, kv) ==
  LET v == kv.val
      g == GoVal(v)
  IN /\ e.nm = kv.nm
     /\ e.t = v.t
     /\ v.t = BOOL => e.vb = v.b
     \* nothing of an entry read before
     /\ e.vi = IF v.t \in Ints THEN v.n ELSE Zero
     /\ e.vs = IF v.t \in Strs \cup Addrs THEN v.s ELSE <<>>
     /\ e.g = g.g /\ e.gn = g.n /\ e.gs = g.s

AtEnd(k) == k.left = 0 \/ (k.left < 0 /\ k.i > Len(k.b))

\* Next of a key-value scanner; e.rem is what RemainingBuf returns after it
KNext(st, e) ==
  LET k == st.k
      kv == DecKV(k.b, k.i)
      wild == k.wild \/ (~k.stop /\ ~AtEnd(k) /\ kv.over)
  IN IF wild THEN F([st EXCEPT !.k.wild = TRUE], Broken({ << e.pan, {"C11.panic"} >> }))
     ELSE IF k.stop \* an error has been reported before
     THEN F(st, Broken({ << e.pan, {"C11.panic"} >>, << e.ret, {"C11.afterError"} >>, << ~e.err, {"C11.errorLost"} >> }))
     ELSE IF AtEnd(k)
     THEN F(st, Broken({ << e.pan, {"C11.panic"} >>, << e.ret, {"C11.tooMany"} >>, << e.err, {"C11.spurious"} >>,
                         << ~e.pan /\ e.rem # Len(k.b) - k.i + 1, {"C11.rest"} >> }))
     ELSE IF ~kv.ok
     THEN F([st EXCEPT !.k.stop = TRUE, !.k.cur = <<>>],
            Broken({ << e.pan, {"C11.panic"} >>, << e.ret, {"C11.invented"} >>, << ~e.pan /\ ~e.err, {"C11.noError"} >> }))
     ELSE F([st EXCEPT !.k.i = kv.i, !.k.left = IF @ > 0 THEN @ - 1 ELSE @, !.k.cur = kv.nm],
            Broken({ << e.pan, {"C11.panic"} >>,
                     << ~e.pan /\ (~e.ret \/ e.err), {"C11.refused"} >>,
                     << e.ret /\ ~EntryIs(e, kv), {"C11.entry"} >>,
                     << ~e.pan /\ e.rem # Len(k.b) - kv.i + 1, {"C11.rest"} >> }))

\* the comparison functions for the current entry's name
KName(st, e) ==
  IF st.k.wild \/ st.k.stop THEN st
  ELSE F(st, Broken({ << e.pan, {"C11.panic"} >>, << e.ret # (e.s = st.k.cur), {"C11.name"} >> }))

KDiscard(st, e) ==
  LET k == st.k
      l == DecList(k.b, k.i, k.left, <<>>)
  IN IF k.wild \/ (~k.stop /\ l.over) THEN F([st EXCEPT !.k.wild = TRUE], Broken({ << e.pan, {"C11.panic"} >> }))
     ELSE IF k.stop \/ ~l.ok
     THEN F([st EXCEPT !.k.stop = TRUE], Broken({ << e.pan, {"C11.panic"} >>, << ~e.pan /\ ~e.err, {"C11.noError"} >> }))
     ELSE F([st EXCEPT !.k.i = l.i, !.k.left = IF @ > 0 THEN 0 ELSE @],
            Broken({ << e.pan, {"C11.panic"} >>, << e.err, {"C11.spurious"} >>,
                     << ~e.pan /\ e.rem # Len(k.b) - l.i + 1, {"C11.rest"} >> }))

MNew(st, e) == [st EXCEPT !.m = [ NoMS EXCEPT !.on = TRUE, !.b = e.b ], !.k = NoKVS]

\* Next of a message scanner.  The arguments of the message before have been
\* read to the end, or nothing is claimed.
MNext(st, e) ==
  LET m == st.m
      k == st.k
      undef == m.wild \/ (m.open /\ (k.wild \/ k.stop \/ ~AtEnd(k)))
      i == IF m.open THEN m.i + (k.i - 1) ELSE m.i
      h == DecMsg(m.b, i)
  IN IF undef \/ (~m.stop /\ i <= Len(m.b) /\ h.over)
     THEN F([st EXCEPT !.m.wild = TRUE, !.k.wild = TRUE], Broken({ << e.pan, {"C11.panic"} >> }))
     ELSE IF m.stop
     \* nothing is claimed about going on after a malformed message
     THEN F([st EXCEPT !.m.wild = TRUE, !.k.wild = TRUE], Broken({ << e.pan, {"C11.panic"} >> }))
     ELSE IF i > Len(m.b)
     THEN F([st EXCEPT !.m.i = i, !.m.open = FALSE],
            Broken({ << e.pan, {"C11.panic"} >>, << e.ret, {"C11.tooMany"} >>, << e.err, {"C11.spurious"} >> }))
     ELSE IF ~h.ok
     THEN F([st EXCEPT !.m.stop = TRUE, !.m.open = FALSE],
            Broken({ << e.pan, {"C11.panic"} >>, << e.ret, {"C11.invented"} >>, << ~e.pan /\ ~e.err, {"C11.noError"} >> }))
     ELSE F([st EXCEPT !.m.i = h.i, !.m.open = TRUE,
                       !.k = [ NoKVS EXCEPT !.on = TRUE, !.b = SubSeq(m.b, h.i, Len(m.b)), !.left = h.n ]],
            Broken({ << e.pan, {"C11.panic"} >>,
                     << ~e.pan /\ (~e.ret \/ e.err), {"C11.refused"} >>,
                     << e.ret /\ e.nm # h.nm, {"C11.message"} >>,
                     << e.ret /\ e.rem # Len(m.b) - h.i + 1, {"C11.rest"} >> }))

\* --------------------------------------------------------------------------
\* C12: actions

ANew(st, e) == [st EXCEPT !.a = [ NoWr EXCEPT !.on = TRUE, !.d = e.d ]]

Natural == [ int32 |-> INT32, uint32 |-> UINT32, int64 |-> INT64, uint64 |-> UINT64 ]

\* e.k: unset, null, bool, int32 ..., addr, string, binary; e.inv: an address
\* that is none.  Integers may be sent with the type of the call or as int64.
AEncs(e) ==
  LET v(t, n, s) == EncSet(e.sc, e.nm, [ t |-> t, b |-> e.vb, n |-> n, s |-> s ])
  IN CASE e.k = "unset"  -> { EncUnset(e.sc, e.nm) }
       [] e.k = "null"   -> { v(NULL, Zero, <<>>) }
       [] e.k = "bool"   -> { v(BOOL, Zero, <<>>) }
       [] e.k \in DOMAIN Natural -> { v(INT64, e.vi, <<>>), v(Natural[e.k], e.vi, <<>>) }
       [] e.k = "addr"   -> { v(IF Len(e.vs) = 4 THEN IPV4 ELSE IPV6, Zero, e.vs) }
       [] e.k = "string" -> { v(TSTR, Zero, e.vs) }
       [] e.k = "binary" -> { v(TBIN, Zero, e.vs) }

ASet(st, e) ==
  LET a == st.a
      same == e.out = a.d /\ e.off = Len(a.d)
      fit == { x \in AEncs(e) : e.out = a.d \o x }
      keep == Len(e.out) >= Len(a.d) /\ SubSeq(e.out, 1, Len(a.d)) = a.d
  IN IF e.pan THEN F(st, {"C12.panic"})
     ELSE IF e.inv THEN F(st, Broken({ << ~e.err, {"C12.invalid"} >>, << ~same, {"C12.partial"} >> }))
     ELSE F([st EXCEPT !.a.d = e.out],
            Broken({ << e.err, {"C12.refused"} >>,
                     << ~keep, {"C12.earlier"} >>,
                     << e.err /\ ~same, {"C12.partial"} >>,
                     << ~e.err /\ (fit = {} \/ e.off # Len(e.out)), {"C12.encode"} >> }))

\* --------------------------------------------------------------------------
\* C14: key-value lists in a buffer of fixed size

WNew(st, e) == [st EXCEPT !.w = [ NoWr EXCEPT !.on = TRUE, !.d = e.d, !.cap = e.cap ]]

WEnc(e) ==
  LET v(t, n, s) == EncKV(e.nm, [ t |-> t, b |-> e.vb, n |-> n, s |-> s ])
  IN CASE e.k = "null"   -> v(NULL, Zero, <<>>)
       [] e.k = "bool"   -> v(BOOL, Zero, <<>>)
       [] e.k \in DOMAIN Natural -> v(Natural[e.k], e.vi, <<>>)
       [] e.k = "addr"   -> v(IF Len(e.vs) = 4 THEN IPV4 ELSE IPV6, Zero, e.vs)
       [] e.k = "string" -> v(TSTR, Zero, e.vs)
       [] e.k = "binary" -> v(TBIN, Zero, e.vs)

WSet(st, e) ==
  LET w == st.w
      enc == WEnc(e)
      same == e.out = w.d /\ e.off = Len(w.d)
      fits == Len(w.d) + Len(enc) <= w.cap
  IN IF e.pan THEN F(st, {"C14.panic"})
     ELSE F([st EXCEPT !.w.d = e.out],
            Broken({ << ~e.guard, {"C14.beyond"} >>,
                     << (e.inv \/ ~fits) /\ ~e.err, {"C14.noError"} >>,
                     << (e.inv \/ ~fits \/ e.err) /\ ~same, {"C14.partial"} >>,
                     << ~e.inv /\ fits /\ e.err, {"C14.refused"} >>,
                     << ~e.inv /\ fits /\ ~e.err /\ (e.out # w.d \o enc \/ e.off # Len(e.out)), {"C14.encode"} >> }))

\* --------------------------------------------------------------------------
\* C13: unmarshalling into a struct.  e.f is a sequence of fields
\* [key, k kind, ptr, tag], e.bef and e.aft their values before and after:
\* [nil, n, s], e.later the values after the source buffer was overwritten,
\* e.kept what a copy of the struct made before the call holds after it.

Fits(kind, t) ==
  CASE kind = "string" -> t = TSTR
    [] kind = "bytes"  -> t \in Strs
    [] kind = "bool"   -> t = BOOL
    [] kind = "addr"   -> t \in Addrs
    [] kind \in DOMAIN Natural -> t = Natural[kind]
    [] OTHER -> FALSE

Conv(kind, v) ==
  [ nil |-> FALSE,
    n |-> CASE kind = "bool" -> U(IF v.b THEN 1 ELSE 0)
            [] kind = "int32" -> Sext32(v.n)
            [] kind = "uint32" -> Zext32(v.n)
            [] kind \in {"int64", "uint64"} -> v.n
            [] OTHER -> Zero,
    s |-> IF kind \in {"string", "bytes", "addr"} THEN v.s ELSE <<>> ]

Nil == [ nil |-> TRUE, n |-> Zero, s |-> <<>> ]

Un(st, e) ==
  LET l == DecList(e.b, 1, e.n, <<>>)
      \* the entries for field j
      es(j) == { x \in DOMAIN l.list : l.list[x].nm = e.f[j].key }
      Max(S) == CHOOSE x \in S : \A y \in S : y <= x
      misfit == \E j \in DOMAIN e.f : e.f[j].tag /\ \E x \in es(j) :
                  ~Fits(e.f[j].k, l.list[x].val.t) /\ ~(e.f[j].ptr /\ l.list[x].val.t = NULL)
      want(j) == IF ~e.f[j].tag THEN e.bef[j]
                 ELSE IF es(j) = {} THEN (IF e.f[j].ptr THEN Nil ELSE e.bef[j])
                 ELSE LET v == l.list[Max(es(j))].val IN IF v.t = NULL THEN Nil ELSE Conv(e.f[j].k, v)
      \* bytes and nil slices are told apart only where they are pointers
  IN F(st, IF e.pan THEN {"C13.panic"}
           ELSE IF l.over THEN {}
           ELSE IF ~l.ok \/ misfit THEN Broken({ << ~e.err, IF l.ok THEN {"C13.misfit"} ELSE {"C13.malformed"} >> })
           ELSE Broken({ << e.err, {"C13.refused"} >>,
                         << e.kept # e.bef, {"C13.kept"} >>,
                         << ~e.err /\ \E j \in DOMAIN e.f : e.f[j].tag /\ e.aft[j] # want(j), {"C13.value"} >>,
                         << ~e.err /\ \E j \in DOMAIN e.f : ~e.f[j].tag /\ e.aft[j] # e.bef[j], {"C13.untagged"} >>,
                         << ~e.err /\ e.later # e.aft, {"C13.alias"} >> }))

\* --------------------------------------------------------------------------
\* C21: stick tables

\* Marshal of a definition or entry into a buffer of e.cap bytes
Put(st, e, enc) ==
  F(st, Broken({ << e.pan, {"C21.panic"} >>,
                 << ~e.guard, {"C21.beyond"} >>,
                 << ~e.pan /\ e.changed, {"C21.source"} >>,
                 << ~e.pan /\ Len(enc) <= e.cap /\ (e.err \/ e.n # Len(enc) \/ e.out # enc), {"C21.encode"} >>,
                 << ~e.pan /\ Len(enc) > e.cap /\ ~e.err, {"C21.noSpace"} >> }))

DefPut(st, e) == Put(st, e, EncDef(e.d))
EntPut(st, e) == Put(st, e, EncEntry(e.d, e.u))

DefGet(st, e) ==
  LET r == DecDef(e.b) IN
  F(st, Broken({ << e.pan, {"C21.panic"} >>,
                 << e.arr /\ (e.err \/ e.n # Len(e.b)), {"C21.array"} >>,
                 << ~e.arr /\ ~e.pan /\ r.ok /\ ~r.over /\ (e.err \/ e.d # r.d \/ e.n # r.i - 1), {"C21.decode"} >>,
                 << ~e.arr /\ ~e.pan /\ ~r.ok /\ ~r.over /\ ~r.array /\ ~e.err, {"C21.truncated"} >> }))

EntGet(st, e) ==
  LET r == DecEntry(e.d, e.wid, e.wex, e.id0, e.b) IN
  F(st, Broken({ << e.pan, {"C21.panic"} >>,
                 << ~e.pan /\ r.ok /\ ~r.over /\ (e.err \/ e.u # r.e \/ e.n # r.i - 1), {"C21.decodeEntry"} >>,
                 << ~e.pan /\ ~r.ok /\ ~r.over /\ ~e.err, {"C21.truncated"} >> }))

\* --------------------------------------------------------------------------
\* C24: the slice buffer.  r: bytes read already, q: not read yet, room: free

Drop(q, n) == SubSeq(q, n + 1, Len(q))
Take(q, n) == SubSeq(q, 1, n)

Buf(st, e) ==
  LET b == st.b
      b2 == CASE e.o = "new"    -> [ r |-> <<>>, q |-> <<>>, room |-> e.n ]
              [] e.o = "with"   -> [ r |-> <<>>, q |-> e.d, room |-> 0 ]
              [] e.o = "write"  -> [ b EXCEPT !.q = @ \o e.d, !.room = @ - Len(e.d) ]    \* WriteBytes, AdvanceW
              [] e.o = "writen" -> [ b EXCEPT !.q = @ \o e.d, !.room = @ - Len(e.d) ]    \* WriteNBytes
              [] e.o = "readn"  -> [ b EXCEPT !.r = @ \o Take(b.q, e.n), !.q = Drop(@, e.n) ]
              [] e.o = "advr"   -> [ b EXCEPT !.r = @ \o Take(b.q, e.n), !.q = Drop(@, e.n) ]
              [] e.o = "back"   -> [ b EXCEPT !.q = Drop(b.r, Len(b.r) - e.n) \o @, !.r = Take(@, Len(b.r) - e.n) ]
              [] e.o = "grow"   -> [ b EXCEPT !.room = e.wl ]
              [] e.o = "reset"  -> [ r |-> <<>>, q |-> <<>>, room |-> e.wl ]
  IN F([st EXCEPT !.b = b2],
       Broken({ << e.pan, {"C24.panic"} >>,
                << ~e.pan /\ e.q # b2.q, {"C24.content"} >>,
                << ~e.pan /\ e.len # Len(b2.q), {"C24.len"} >>,
                << ~e.pan /\ e.o = "readn" /\ e.out # Take(b.q, e.n), {"C24.read"} >>,
                << ~e.pan /\ e.o = "writen" /\ e.nlen # Len(e.d), {"C24.writen"} >>,
                << ~e.pan /\ e.o = "grow" /\ e.wl < (IF e.n > b.room THEN e.n ELSE b.room), {"C24.grow"} >>,
                << ~e.pan /\ e.o = "reset" /\ e.wl < b.room + Len(b.q) + Len(b.r), {"C24.reset"} >>,
                << ~e.pan /\ e.o \notin {"grow", "reset"} /\ e.wl # b2.room, {"C24.room"} >> }))

\* --------------------------------------------------------------------------
\* C26: frames and handshakes written to a writer that accepts e.wcap bytes
\* (any number of them if negative): the whole of one permitted encoding, or
\* nothing and an error where there is none; e.n is the count returned

Written(st, e, prop, encs, can) ==
  LET part(b) == IF e.wcap >= 0 /\ e.wcap < Len(b) THEN Take(b, e.wcap) ELSE b
      cut == \A b \in encs : e.wcap >= 0 /\ e.wcap < Len(b)
  IN F(st, Broken({ << e.pan # (e.cb = "panic"), {prop \o ".panic"} >>,
                    << ~e.pan /\ ~can /\ ~e.err, {prop \o ".noError"} >>,
                    << (~can \/ e.pan) /\ e.out # <<>>, {prop \o ".partial"} >>,
                    << ~e.pan /\ can /\ cut /\ ~e.err, {prop \o ".errorLost"} >>,
                    << ~e.pan /\ can /\ ~cut /\ e.err, {prop \o ".refused"} >>,
                    << ~e.pan /\ can /\ ~\E b \in encs : e.out = part(b), {prop \o ".encode"} >>,
                    << ~e.pan /\ e.n # Len(e.out), {prop \o ".count"} >> }))

StrVal(s) == [ t |-> TSTR, b |-> FALSE, n |-> Zero, s |-> s ]
U32Val(v) == [ t |-> UINT32, b |-> FALSE, n |-> v, s |-> <<>> ]

KVersion == << 118, 101, 114, 115, 105, 111, 110 >>
KMaxSize == << 109, 97, 120, 45, 102, 114, 97, 109, 101, 45, 115, 105, 122, 101 >>
KCaps    == << 99, 97, 112, 97, 98, 105, 108, 105, 116, 105, 101, 115 >>
KStatus  == << 115, 116, 97, 116, 117, 115, 45, 99, 111, 100, 101 >>
KMessage == << 109, 101, 115, 115, 97, 103, 101 >>

RECURSIVE Joined(_, _)
Joined(l, i) == IF i > Len(l) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE << 44 >>) \o l[i] \o Joined(l, i + 1)

\* the entries may come in any order
Perm2(a, b) == { a \o b, b \o a }
Perm3(a, b, c) == { x \o c : x \in Perm2(a, b) } \cup { x \o b : x \in Perm2(a, c) } \cup { x \o a : x \in Perm2(b, c) }

FHello(st, e) ==
  LET encs == { FrameOf(AGENTHELLO, Zero, Zero, p) :
                  p \in Perm3(EncKV(KVersion, StrVal(e.ver)), EncKV(KMaxSize, U32Val(e.mfs)), EncKV(KCaps, StrVal(Joined(e.caps, 1)))) }
  IN Written(st, e, "C26", encs, \A b \in encs : Len(b) - 4 <= MaxFrame)

FDisc(st, e) ==
  Written(st, e, "C26", { FrameOf(AGENTDISCON, Zero, Zero, p) : p \in Perm2(EncKV(KStatus, U32Val(e.code)), EncKV(KMessage, StrVal(e.msg))) }, TRUE)

\* e.acts: what the callback has recorded; left out if it is too much anyway
FAck(st, e) ==
  LET b == FrameOf(ACK, e.sid, e.fid, e.acts) IN
  Written(st, e, "C26", { b }, e.cb = "ok" /\ e.alen = Len(e.acts) /\ Len(b) - 4 <= MaxFrame)

\* C27: the handshake of a peer
HPut(st, e) == Written(st, e, "C27", { EncHs(e.h) }, TRUE)

\* e.used: the bytes taken from the reader; e.inf: it never ends
HGet(st, e) ==
  LET d == DecHs(e.b) IN
  F(st, Broken({ << e.pan, {"C27.panic"} >>,
                 << ~e.pan /\ e.n # e.used, {"C27.count"} >>,
                 << d.i > 0 /\ e.used > d.i, {"C27.ahead"} >>,
                 << ~e.pan /\ d.ok /\ (e.err \/ e.h # d.h \/ e.used # d.i), {"C27.decode"} >>,
                 << ~e.pan /\ ~d.ok /\ ~d.over /\ ~e.err, {"C27.noError"} >> }))

\* a handshake made for connecting to e.remote
HNew(st, e) ==
  F(st, Broken({ << e.h # [ proto |-> << 72, 65, 80, 114, 111, 120, 121, 83 >>, ver |-> << 50, 46, 49 >>, remote |-> e.remote,
                            loc |-> e.host, pid |-> e.pid, rel |-> 0 ], {"C27.new"} >> }))

\* what the log of the harness itself has to look like
Sane(st, e) ==
  CASE e.e = "buf" /\ e.o \in {"write", "writen"} -> Len(e.d) <= st.b.room
    [] e.e = "buf" /\ e.o \in {"readn", "advr"}   -> e.n <= Len(st.b.q)
    [] e.e = "buf" /\ e.o = "back"                -> e.n <= Len(st.b.r)
    [] OTHER -> TRUE

Apply(st, e) ==
  CASE e.e = "vput"  -> VPut(st, e)
    [] e.e = "vget"  -> VGet(st, e)
    [] e.e = "knew"  -> KNew(st, e)
    [] e.e = "knext" -> KNext(st, e)
    [] e.e = "kname" -> KName(st, e)
    [] e.e = "kdisc" -> KDiscard(st, e)
    [] e.e = "mnew"  -> MNew(st, e)
    [] e.e = "mnext" -> MNext(st, e)
    [] e.e = "anew"  -> ANew(st, e)
    [] e.e = "aset"  -> ASet(st, e)
    [] e.e = "wnew"  -> WNew(st, e)
    [] e.e = "wset"  -> WSet(st, e)
    [] e.e = "un"    -> Un(st, e)
    [] e.e = "dput"  -> DefPut(st, e)
    [] e.e = "dget"  -> DefGet(st, e)
    [] e.e = "eput"  -> EntPut(st, e)
    [] e.e = "eget"  -> EntGet(st, e)
    [] e.e = "buf"   -> Buf(st, e)
    [] e.e = "fhello" -> FHello(st, e)
    [] e.e = "fdisc" -> FDisc(st, e)
    [] e.e = "fack"  -> FAck(st, e)
    [] e.e = "hput"  -> HPut(st, e)
    [] e.e = "hget"  -> HGet(st, e)
    [] e.e = "hnew"  -> HNew(st, e)
=============================================================================
