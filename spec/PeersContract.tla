---------------------------- MODULE PeersContract ----------------------------
(* The observable contract of a peer, as a deterministic monitor.           *)
(*                                                                          *)
(* It sees the bytes HAProxy sends and the bytes the peer writes, both as   *)
(* they are, and takes them apart itself (Wire.tla), so that nothing but    *)
(* the bytes can matter; and it sees the callbacks of the handlers, the     *)
(* calls made on the writer of a connection, and what is closed, each at a  *)
(* time "t" in milliseconds.  Apply(st, e) is the state of the contract     *)
(* after event e; rules an event breaks are added to st.fails.              *)
EXTENDS Wire, TLC, FiniteSets

HeartbeatMax == 3000   \* a message at least this often
Silence      == 5000   \* a connection is dead after that

HUGE == 16777216       \* a longer message may be refused at once

Range(s) == { s[i] : i \in DOMAIN s }
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

NoSel == [ k |-> "none" ]

Conn0 == [ acc    |-> FALSE, closed |-> FALSE,
           ph     |-> "hello",      \* hello, run, stop (what follows means nothing)
           ib     |-> <<>>, skip |-> 0, lines |-> <<>>,   \* received, not complete yet
           hs     |-> [ k |-> "none" ],  \* the hello received
           hsn    |-> 0,            \* handshake callbacks
           defs   |-> <<>>, sel |-> NoSel,  \* tables by id, the selected one
           q      |-> <<>>,         \* updates to deliver
           lastId |-> [ set |-> FALSE ],
           syncs  |-> 0, parts |-> 0,
           est    |-> -1, lastOut |-> 0, lastMsg |-> 0, lastByte |-> 0,
           cb     |-> "", cbAt |-> 0, cbEnd |-> 0,
           bad    |-> FALSE,        \* no complete hello will come
           taint  |-> FALSE,        \* something undecodable received: may end or go on
           wild   |-> FALSE,        \* something of undefined meaning received
           undec  |-> 0,            \* updates that cannot be decoded
           eof    |-> FALSE, werr |-> FALSE, panicked |-> FALSE,
           ob     |-> <<>>, junk |-> FALSE,   \* written, not complete yet
           pend   |-> {},           \* calls on the writer that did not return
           lag    |-> FALSE,        \* a call failed, what it had written may wait for the next one
           snd    |-> <<>>,         \* messages of senders, not on the stream yet
           sid    |-> [ set |-> FALSE ],      \* last entry id on the stream
           hn     |-> 0,            \* its handler instance, 0: not known
           exp    |-> FALSE,        \* was silent for too long once, although not closed
           hclosed |-> FALSE, late |-> FALSE, gap |-> FALSE ]

Start == [ vt |-> FALSE, shared |-> FALSE, t |-> 0, cs |-> <<>>, lastAcc |-> 0,
           hof |-> <<>>,            \* connection of a handler instance
           anon |-> 0,              \* closed handlers that cannot be attributed
           anonRun |-> 0,           \* of these, not closed completely
           calls |-> <<>>, faults |-> 0,
           cancelled |-> FALSE, lfail |-> FALSE, lclosed |-> FALSE, ret |-> FALSE, fails |-> {} ]

F(st, rules) == [st EXCEPT !.fails = @ \cup rules]
Broken(rs) == UNION { r[2] : r \in { r \in rs : r[1] } }

\* --------------------------------------------------------------------------
\* what may, and what has to, end a connection

Base(k) == IF k.lastMsg > k.est THEN k.lastMsg ELSE k.est

TimedOut(st, k) ==
  \/ k.exp
  \/ k.est >= 0 /\ st.t >= Base(k) + Silence
  \/ k.cb # "" /\ st.t >= k.cbAt + Silence        \* nothing was read meanwhile

Live(st, c) == LET k == st.cs[c] IN
  ~k.closed /\ ~k.eof /\ ~k.bad /\ ~k.werr /\ ~k.taint /\ ~k.wild /\ ~k.panicked /\ ~st.cancelled
  /\ (k.acc \/ ~st.lfail)
MayEnd(st, c) == ~Live(st, c) \/ TimedOut(st, st.cs[c])
MustEnd(st, c) == LET k == st.cs[c] IN k.eof \/ k.bad \/ k.panicked \/ k.closed \/ (st.cancelled /\ k.acc)

\* --------------------------------------------------------------------------
\* the hello

Blank(x) == x \in {9, 10, 11, 12, 13, 32} \/ x > 126
Plain(x) == x >= 33 /\ x <= 126
Digit(x) == x >= 48 /\ x <= 57

IsTok(l, i) == i \in DOMAIN l /\ ~(Blank(l[i]) /\ l[i] <= 126)
RECURSIVE Firsts(_, _)
Firsts(S, n) == IF S = {} \/ n = 0 THEN <<>> ELSE LET m == MinOf(S) IN << m >> \o Firsts(S \ {m}, n - 1)
\* the first four tokens of l
Tokens(l) ==
  LET ss == Firsts({ i \in DOMAIN l : IsTok(l, i) /\ ~IsTok(l, i - 1) }, 4)
      es == Firsts({ i \in DOMAIN l : IsTok(l, i) /\ ~IsTok(l, i + 1) }, 4)
  IN [ j \in DOMAIN ss |-> SubSeq(l, ss[j], es[j]) ]

\* the tokens of l separated by single blanks, or <<>> if it is not just that
RECURSIVE Joined(_, _)
Joined(ts, i) == IF i > Len(ts) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE << 32 >>) \o ts[i] \o Joined(ts, i + 1)

AllPlain(s) == \A i \in DOMAIN s : Plain(s[i])
AllDigits(s) == \A i \in DOMAIN s : Digit(s[i])
Canon(s) == s # <<>> /\ AllDigits(s) /\ Len(s) <= 18 /\ (s[1] # 48 \/ Len(s) = 1)
Signed(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
\* certainly not a number, or not one of 64 bits
NoNumber(s, strict) ==
  LET d == Signed(s) IN d = <<>> \/ ~Digit(d[1]) \/ (strict /\ \E i \in DOMAIN d : d[i] > 57 /\ d[i] # 95)
                        \/ (AllDigits(d) /\ Len(d) >= 20 /\ d[1] # 48)

Hello(ls) ==
  LET a == Tokens(ls[1])
      b == Tokens(ls[3])
      good == Len(a) = 2 /\ Joined(a, 1) = ls[1] /\ AllPlain(a[1]) /\ AllPlain(a[2])
              /\ ls[2] # <<>> /\ (\A i \in DOMAIN ls[2] : ls[2][i] # 13)
              /\ Len(b) = 3 /\ Joined(b, 1) = ls[3] /\ AllPlain(b[1]) /\ Canon(b[2]) /\ Canon(b[3])
              /\ \A i \in 1..3 : Len(ls[i]) < 60000
      bad  == Len(a) < 2 \/ Len(b) < 3 \/ NoNumber(b[2], TRUE) \/ NoNumber(b[3], FALSE)
  IN IF good THEN [ k |-> "ok", proto |-> a[1], ver |-> a[2], remote |-> ls[2], peer |-> b[1], pid |-> b[2], rel |-> b[3] ]
     ELSE IF bad THEN [ k |-> "bad" ]
     ELSE [ k |-> "any" ]

\* --------------------------------------------------------------------------
\* messages received

Taint(k) == [k EXCEPT !.taint = TRUE]
Wild(k)  == [k EXCEPT !.wild = TRUE, !.taint = TRUE, !.ph = "stop", !.q = <<>>]

IDef == 130  ISwitch == 131  IAck == 132
Entries == {128, 129, 133, 134}

HasId(ty) == ty \in {128, 133}
HasEx(ty) == ty \in {133, 134}

OnMsg(k, cls, ty, p) ==
  CASE cls = 0 /\ ty = 0 -> [k EXCEPT !.syncs = @ + 1]
    [] cls = 0 /\ ty \in 1..4 -> k
    [] cls = 10 /\ ty = IAck -> k
    [] cls = 10 /\ ty = IDef ->
         LET r == DecDef(p) IN
         IF r.over \/ r.array THEN Wild(k)
         ELSE IF ~r.ok THEN [Taint(k) EXCEPT !.sel = NoSel]
         ELSE [k EXCEPT !.sel = [ k |-> "def", d |-> r.d ],
                        !.defs = [ i \in DOMAIN k.defs \cup {r.d.id} |-> IF i = r.d.id THEN r.d ELSE k.defs[i] ]]
    [] cls = 10 /\ ty = ISwitch ->
         LET r == Dec(p, 1) IN
         IF r.over THEN Wild(k)
         ELSE IF ~r.ok \/ r.v \notin DOMAIN k.defs THEN [Taint(k) EXCEPT !.sel = NoSel]
         ELSE [k EXCEPT !.sel = [ k |-> "def", d |-> k.defs[r.v] ]]
    [] cls = 10 /\ ty \in Entries ->
         IF k.sel.k = "none" THEN [Taint(k) EXCEPT !.undec = @ + 1]
         ELSE LET r == DecEntry(k.sel.d, HasId(ty), HasEx(ty), Zero, p) IN
              IF r.over THEN Wild(k)
              ELSE IF ~r.ok THEN [Taint(k) EXCEPT !.undec = @ + 1]
              ELSE [k EXCEPT !.q = Append(@, [ d |-> k.sel.d, u |-> r.e, opt |-> k.taint ])]
    [] OTHER -> Taint(k)

\* everything complete in k.ib at time t
RECURSIVE Parse(_, _)
Parse(k, t) ==
  CASE k.ph = "stop" -> [k EXCEPT !.ib = <<>>]
    [] k.ph = "hello" ->
         LET nl == { i \in DOMAIN k.ib : k.ib[i] = 10 } IN
         IF nl = {} THEN k
         ELSE LET p  == MinOf(nl)
                  ls == Append(k.lines, SubSeq(k.ib, 1, p - 1))
                  k2 == [k EXCEPT !.ib = SubSeq(k.ib, p + 1, Len(k.ib)), !.lines = ls]
              IN IF Len(ls) < 3 THEN Parse(k2, t)
                 ELSE LET h == Hello(ls) IN
                      CASE h.k = "ok"  -> Parse([k2 EXCEPT !.hs = h, !.ph = "run", !.lines = <<>>, !.lastMsg = t], t)
                        [] h.k = "any" -> Parse([k2 EXCEPT !.hs = h, !.ph = "run", !.lines = <<>>, !.lastMsg = t, !.taint = TRUE], t)
                        [] OTHER       -> [k2 EXCEPT !.hs = h, !.ph = "stop", !.bad = TRUE, !.ib = <<>>]
    [] OTHER ->
         LET b == k.ib IN
         IF Len(b) < 2 THEN k
         ELSE IF b[2] < 128 THEN Parse([OnMsg(k, b[1], b[2], <<>>) EXCEPT !.ib = SubSeq(b, 3, Len(b)), !.lastMsg = t], t)
         ELSE LET l == Dec(b, 3) IN
              IF l.over THEN Wild(k)
              ELSE IF ~l.ok THEN k
              ELSE IF ~IsSmall(l.v) \/ Small(l.v) > HUGE THEN Taint(k)
              ELSE LET n == Small(l.v)
                       have == Len(b) - l.i + 1
                   IN IF have >= n
                      THEN Parse([OnMsg(k, b[1], b[2], SubSeq(b, l.i, l.i + n - 1)) EXCEPT !.ib = SubSeq(b, l.i + n, Len(b)), !.lastMsg = t], t)
                      ELSE IF b[1] = 10 /\ b[2] = IAck   \* its content means nothing
                      THEN [k EXCEPT !.ib = <<>>, !.skip = n - have]
                      ELSE k

In(st, e) ==
  LET c == e.c
      k == st.cs[c]
      \* bytes of a message whose content means nothing; e.z: that many more
      s == IF Len(e.b) < k.skip THEN Len(e.b) ELSE k.skip
      rest == SubSeq(e.b, s + 1, Len(e.b))
      k1 == [k EXCEPT !.skip = @ - s, !.lastByte = e.t, !.exp = TimedOut(st, k)]
      k2 == IF k1.skip = 0 /\ (rest # <<>> \/ s > 0) THEN Parse([k1 EXCEPT !.ib = @ \o rest, !.lastMsg = IF s > 0 THEN e.t ELSE @], e.t) ELSE k1
      k3 == IF e.z > 0 THEN [k2 EXCEPT !.skip = @ - e.z, !.lastMsg = IF k2.skip = e.z THEN e.t ELSE @] ELSE k2
      worse == (k3.taint /\ ~k.taint) \/ (k3.bad /\ ~k.bad)
  IN [st EXCEPT !.cs[c] = k3, !.faults = @ + (IF worse THEN 1 ELSE 0)]

\* --------------------------------------------------------------------------
\* callbacks

Strip(h) == [ proto |-> h.proto, ver |-> h.ver, remote |-> h.remote, peer |-> h.peer, pid |-> h.pid, rel |-> h.rel ]

SameHs(k, h) == k.hs.k # "ok" \/ h = Strip(k.hs)

\* whether the update u of table d is x, which is to be delivered on k
SameUpd(k, x, d, u) ==
  /\ d = x.d
  /\ u.wid = x.u.wid /\ u.wex = x.u.wex /\ u.ex = x.u.ex /\ u.key = x.u.key /\ u.data = x.u.data
  /\ IF x.u.wid THEN u.id = x.u.id
     ELSE ~k.lastId.set \/ u.id = Inc32(k.lastId.v)

UpdTags(k, x, d, u) ==
  Broken({ << d # x.d, {"C16.table"} >>,
           << u.wid # x.u.wid \/ u.wex # x.u.wex \/ u.ex # x.u.ex \/ u.key # x.u.key \/ u.data # x.u.data, {"C16.value"} >>,
           << d = x.d /\ u.key = x.u.key /\ (IF x.u.wid THEN u.id # x.u.id ELSE k.lastId.set /\ u.id # Inc32(k.lastId.v)), {"C16.id"} >> })

Foreign(st, c, d, u) == \E o \in DOMAIN st.cs \ {c} : \E i \in DOMAIN st.cs[o].q : st.cs[o].q[i].d = d /\ st.cs[o].q[i].u.key = u.key /\ st.cs[o].q[i].u.data = u.data

\* whether d was defined on another connection only
Elsewhere(st, c, d) == d \notin Range(st.cs[c].defs) /\ \E o \in DOMAIN st.cs \ {c} : d \in Range(st.cs[o].defs)

\* a callback starts; e.c is the connection found in its context
Cb(st, e) ==
  LET c == IF e.c # 0 THEN e.c ELSE IF e.h \in DOMAIN st.hof THEN st.hof[e.h] ELSE 0
  IN IF c = 0 THEN (IF e.k = "close" THEN [st EXCEPT !.anon = @ + 1, !.anonRun = @ + 1] ELSE F(st, {"C23.connection"}))
  ELSE
  LET k == st.cs[c]
      known == e.h # 0 /\ e.h \in DOMAIN st.hof
      common == Broken({ << k.cb # "", {"C19.overlap"} >>,
                         << k.hclosed, {"C19.afterClose"} >>,
                         << e.c # 0 /\ known /\ st.hof[e.h] # e.c, {"C23.instance"} >>,
                         << e.k # "close" /\ e.x /\ ~MayEnd(st, c), {"C19.ctxEarly"} >> })
      k1 == [k EXCEPT !.cb = e.k, !.cbAt = e.t]
      st1 == F(st, common)
  IN CASE e.k = "hs" ->
            F([st1 EXCEPT !.cs[c] = [k1 EXCEPT !.hsn = @ + 1]],
              Broken({ << k.hsn > 0, {"C15.twice", "C19.hsTwice"} >>,
                       << k.hs.k = "none", {"C15.callbackEarly"} >>,
                       << k.hs.k = "bad", {"C15.callbackOfBad"} >>,
                       << k.hs.k = "ok" /\ ~SameHs(k, e.hs), {"C15.values"} >> }))
       [] e.k = "up" ->
            LET n0 == Broken({ << k.hsn = 0, {"C19.updateBeforeHandshake"} \cup (IF k.hs.k \in {"bad", "none"} THEN {"C15.updateOfBad"} ELSE {}) >> })
                last == [ set |-> TRUE, v |-> e.u.id ]
            IN IF k.wild THEN F([st1 EXCEPT !.cs[c] = k1], n0)
               ELSE IF k.q = <<>>
               THEN F([st1 EXCEPT !.cs[c] = [k1 EXCEPT !.lastId = last]],
                      n0 \cup {"C16.unexpected"} \cup (IF k.undec > 0 THEN {"C17.delivered"} ELSE {})
                         \cup (IF Foreign(st, c, e.d, e.u) THEN {"C23.update"} ELSE {}))
               ELSE LET x == Head(k.q) IN
                    F([st1 EXCEPT !.cs[c] = [k1 EXCEPT !.q = Tail(@), !.lastId = last]],
                      n0 \cup (IF x.opt /\ ~x.u.wid /\ SameUpd([k EXCEPT !.lastId.set = FALSE], x, e.d, e.u) THEN {} ELSE
                      IF SameUpd(k, x, e.d, e.u) THEN {}
                      ELSE UpdTags(k, x, e.d, e.u) \cup (IF e.d # x.d /\ Elsewhere(st, c, e.d) THEN {"C23.table"} ELSE {}) \cup (IF k.undec > 0 THEN {"C17.delivered"} ELSE {})
                           \cup (IF Foreign(st, c, e.d, e.u) THEN {"C23.update"} ELSE {})))
       [] e.k = "close" ->
            F([st1 EXCEPT !.cs[c] = [k1 EXCEPT !.hclosed = TRUE]],
              Broken({ << k.hclosed, {"C19.closeTwice"} >>,
                       << ~MayEnd(st, c), {"C19.closeEarly"} >>,
                       << e.known /\ ~e.x, {"C19.ctxAliveAtClose"} >>,
                       << k.eof /\ ~k.closed /\ ~k.werr /\ ~k.taint /\ ~k.panicked /\ ~st.cancelled /\ ~TimedOut(st, k)
                          /\ \E i \in DOMAIN k.q : ~k.q[i].opt, {"C16.missing"} >> }))

CbEnd(st, e) ==
  LET c == IF e.c # 0 THEN e.c ELSE IF e.h \in DOMAIN st.hof THEN st.hof[e.h] ELSE 0
  IN IF c = 0 THEN (IF e.k = "close" THEN [st EXCEPT !.anonRun = @ - 1] ELSE st)
     ELSE F([st EXCEPT !.cs[c].cb = "", !.cs[c].cbEnd = e.t, !.cs[c].exp = TimedOut(st, st.cs[c]), !.cs[c].panicked = @ \/ (e.p /\ e.k # "close"),
                       !.faults = IF e.p THEN @ + 1 ELSE @],
            IF e.same THEN {} ELSE {"C16.changed"})

\* --------------------------------------------------------------------------
\* senders.  A message: [k "def", d], [k "switch", id] or [k "entry", d, u]

Payload(m) ==
  CASE m.k = "def"    -> EncDef(m.d)
    [] m.k = "switch" -> Enc(m.id)
    [] m.k = "entry"  -> EncEntry(m.d, [m.u EXCEPT !.wid = FALSE])
MsgType(m) ==
  CASE m.k = "def" -> IDef [] m.k = "switch" -> ISwitch [] m.k = "entry" -> IF m.u.wex THEN 133 ELSE 128

\* e.bad: the call cannot succeed; e.ms: what it may send before it fails
Snd(st, e) ==
  LET ms == [ i \in DOMAIN e.ms |-> [ s |-> e.s, call |-> e.call, ty |-> MsgType(e.ms[i]), p |-> Payload(e.ms[i]), ent |-> e.ms[i].k = "entry", opt |-> e.bad ] ]
  IN [st EXCEPT !.cs[e.c].snd = @ \o ms, !.cs[e.c].pend = @ \cup {e.call}, !.calls = @ @@ (e.call :> e.bad)]

Snt(st, e) ==
  LET k == st.cs[e.c]
      mine(x) == x.call = e.call
      left == { i \in DOMAIN k.snd : mine(k.snd[i]) /\ ~k.snd[i].opt }
      fine == ~e.err /\ ~e.pan
      up == ~k.closed /\ ~k.werr
  IN F([st EXCEPT !.cs[e.c].pend = @ \ {e.call}, !.cs[e.c].lag = ~fine, !.cs[e.c].snd = [ i \in DOMAIN k.snd |-> IF mine(k.snd[i]) THEN [k.snd[i] EXCEPT !.opt = TRUE] ELSE k.snd[i] ]],
       Broken({ << fine /\ left # {}, {"C20.incompleteCall"} >>,
                << ~fine /\ up /\ ~st.calls[e.call], {"C20.refused"} >> }))

\* --------------------------------------------------------------------------
\* bytes written

Less32(x, y) == x[2] < y[2] \/ (x[2] = y[2] /\ x[1] < y[1])

OutMsg(st, c, ty, p) ==
  LET k == st.cs[c]
      ent == ty \in {128, 133}
      body == IF ent THEN SubSeq(p, 5, Len(p)) ELSE p
      match(x) == x.ty = ty /\ x.p = body
      cand == { i \in DOMAIN k.snd : match(k.snd[i]) }
      \* nothing of the same sender has to come before
      ready == { i \in cand : \A j \in 1..i - 1 : k.snd[j].s = k.snd[i].s => k.snd[j].opt }
      id == IF ent /\ Len(p) >= 4 THEN Dec32(p, 1) ELSE Zero
      ids == IF ent /\ Len(p) >= 4 /\ k.sid.set /\ ~Less32(k.sid.v, id) THEN {"C20.id"} ELSE {}
      sid == IF ent /\ Len(p) >= 4 THEN [ set |-> TRUE, v |-> id ] ELSE k.sid
      other == \E o \in DOMAIN st.cs \ {c} : \E i \in DOMAIN st.cs[o].snd : match(st.cs[o].snd[i])
      Cut(i) == LET s == k.snd[i].s
                    keep(j) == j # i /\ ~(j < i /\ k.snd[j].s = s)
                    RECURSIVE g(_)
                    g(j) == IF j > Len(k.snd) THEN <<>> ELSE (IF keep(j) THEN << k.snd[j] >> ELSE <<>>) \o g(j + 1)
                IN g(1)
  IN IF ready # {} THEN F([st EXCEPT !.cs[c].snd = Cut(MinOf(ready)), !.cs[c].sid = sid], ids)
     ELSE IF cand # {} THEN F([st EXCEPT !.cs[c].snd = Cut(MinOf(cand)), !.cs[c].sid = sid], ids \cup {"C20.order"})
     ELSE F([st EXCEPT !.cs[c].sid = sid], IF other THEN {"C20.foreign", "C23.wrongConn"} ELSE {"C20.corrupt"})

\* what can be refused for being no message at all
Messages == {<< 0, x >> : x \in 0..4} \cup {<< 1, 0 >>, << 1, 1 >>} \cup {<< 10, x >> : x \in 128..134}

RECURSIVE OutParse(_, _, _)
OutParse(st, c, t) ==
  LET k == st.cs[c]
      b == k.ob
      st1(n) == [st EXCEPT !.cs[c].ob = SubSeq(b, n + 1, Len(b)), !.cs[c].lastOut = t]
      Junk(tags) == F([st EXCEPT !.cs[c].junk = TRUE, !.cs[c].ob = <<>>], tags)
  IN CASE k.junk -> [st EXCEPT !.cs[c].ob = <<>>]
       [] k.est < 0 ->
            LET ok == << 50, 48, 48, 10 >> IN
            IF \E i \in 1..4 : i <= Len(b) /\ b[i] # ok[i] THEN
               IF k.hs.k \in {"ok", "any"} THEN Junk({"C15.status"})
               \* any other status line may be sent for a hello that is refused
               ELSE IF \A i \in DOMAIN b : Digit(b[i]) \/ b[i] = 10 THEN st ELSE Junk({"C15.status"})
            ELSE IF Len(b) < 4 THEN st
            ELSE OutParse(F([st1(4) EXCEPT !.cs[c].est = t],
                            Broken({ << k.hs.k = "none", {"C15.early"} >>, << k.hs.k = "bad", {"C15.success"} >> })), c, t)
       [] Len(b) < 2 -> st
       [] << b[1], b[2] >> \notin Messages -> Junk(IF b[1] = 50 THEN {"C15.twice", "C20.corrupt"} ELSE {"C20.corrupt"})
       [] b[2] < 128 ->
            LET s == st1(2) IN
            IF b[1] = 0 /\ b[2] = 2
            THEN OutParse(F([s EXCEPT !.cs[c].parts = @ + 1], IF k.parts >= k.syncs /\ ~k.wild THEN {"C18.syncExtra"} ELSE {}), c, t)
            ELSE OutParse(s, c, t)
       [] OTHER ->
            LET l == Dec(b, 3) IN
            IF ~l.ok THEN st
            ELSE IF ~IsSmall(l.v) \/ Small(l.v) > 100000 THEN Junk({"C20.corrupt"})
            ELSE LET n == Small(l.v) IN
                 IF Len(b) - l.i + 1 < n THEN st
                 ELSE LET s == st1(l.i + n - 1)
                          p == SubSeq(b, l.i, l.i + n - 1)
                      IN OutParse(IF b[2] = IAck THEN s ELSE OutMsg(s, c, b[2], p), c, t)

Out(st, e) ==
  LET k == st.cs[e.c] IN OutParse([st EXCEPT !.cs[e.c].ob = @ \o e.b], e.c, e.t)

Closed(st, e) ==
  LET c == e.c
      k == st.cs[c]
  IN F([st EXCEPT !.cs[c].closed = TRUE],
       Broken({ << ~MayEnd(st, c) /\ k.est >= 0, {"C18.closedEarly", "C19.endedEarly"} \cup (IF st.faults > 0 THEN {"C17.closed"} ELSE {}) >>,
                << ~MayEnd(st, c) /\ (\E i \in DOMAIN k.q : ~k.q[i].opt), {"C16.missing"} >>,
                << ~MayEnd(st, c) /\ (k.est < 0 \/ k.hsn = 0) /\ k.hs.k = "ok", {"C15.refused"} >> }))

\* --------------------------------------------------------------------------
\* time passes

\* the deadlines, at every event
Tick(st, t) ==
  IF ~st.vt \/ t = st.t THEN [st EXCEPT !.t = t] ELSE
  LET C == DOMAIN st.cs
      gap(c) == LET k == st.cs[c] IN
        k.est >= 0 /\ ~MayEnd(st, c) /\ ~k.gap /\ t > k.lastOut + HeartbeatMax
      dead(c) == LET k == st.cs[c] IN
        k.acc /\ k.est >= 0 /\ ~k.closed /\ k.cb = "" /\ ~k.late /\ t > MaxOf({k.lastByte, k.cbEnd, k.est}) + Silence
  IN F([st EXCEPT !.t = t, !.cs = [ c \in C |-> [st.cs[c] EXCEPT !.gap = @ \/ gap(c), !.late = @ \/ dead(c)] ]],
       Broken({ << \E c \in C : gap(c), {"C18.gap"} >>,
                << \E c \in C : dead(c), {"C18.notClosed"} >> }))

\* --------------------------------------------------------------------------
\* nothing moves any more

Quiet(st, e) ==
  LET
    wb   == Range(e.wb)      \* connections a write to which is held back
    dead == Range(e.dead)    \* connections whose context is cancelled
    C    == { c \in DOMAIN st.cs : st.cs[c].acc }
    K(c) == st.cs[c]
    idle(c) == K(c).cb = "" /\ c \notin wb
    sf   == IF st.faults > 0 THEN {"C17.lost"} ELSE {}
    Ready(c) == Live(st, c) /\ idle(c) /\ ~TimedOut(st, K(c))
    Ended(c) == MustEnd(st, c) /\ idle(c) /\ st.anonRun = 0
  IN IF ~e.ok THEN F(st, {"C17.stuck", "C18.stuck", "C19.stuck", "C20.stuck", "C16.stuck"})
     ELSE F(st, Broken({
       << \E c \in DOMAIN st.cs : ~st.cs[c].acc /\ ~st.cancelled /\ ~st.lfail, {"C22.notAccepting"} \cup sf >>,
       << \E c \in C : Ready(c) /\ K(c).hs.k = "ok" /\ K(c).est < 0, {"C15.noStatus"} \cup sf >>,
       << \E c \in C : Ready(c) /\ K(c).hs.k = "ok" /\ K(c).hsn = 0, {"C15.noCallback"} \cup sf >>,
       << \E c \in C : Ready(c) /\ \E i \in DOMAIN K(c).q : ~K(c).q[i].opt, {"C16.missing"} \cup sf >>,
       << \E c \in C : Ready(c) /\ K(c).parts < K(c).syncs /\ K(c).pend = {}, {"C18.syncMissing"} \cup sf >>,
       << \E c \in C : c \notin wb /\ ~K(c).closed /\ ~K(c).werr /\ ~K(c).lag /\ K(c).ob # <<>> /\ ~(e.held > 0 /\ K(c).pend # {}) /\ (K(c).est >= 0 \/ K(c).hs.k \in {"ok", "any"}), {"C20.incomplete"} >>,
       \* e.held: marshalers that do not return
       << e.held = 0 /\ \E c \in C : c \notin wb /\ K(c).pend # {}, {"C20.hung"} >>,
       << \E c \in C : Ended(c) /\ ~K(c).closed, {"C19.notClosed"} >>,
       << \E c \in C : Ended(c) /\ ~K(c).closed /\ (K(c).bad \/ K(c).hs.k = "none"), {"C15.notClosed"} >>,
       << ~st.shared /\ \E c \in C : Ended(c) /\ ~K(c).hclosed, {"C19.noClose"} >>,
       << st.shared /\ st.anon < Cardinality({ c \in C : Ended(c) }), {"C19.noClose"} >>,
       << st.shared /\ st.anon > Cardinality({ c \in C : MayEnd(st, c) }), {"C19.closeTwice"} >>,
       << \E c \in dead \cap C : ~MayEnd(st, c), {"C19.ctxEarly"} >>,
       << \E c \in C : K(c).hclosed /\ K(c).hsn > 0 /\ c \notin dead, {"C19.ctxAliveAtClose"} >>,
       << (st.cancelled \/ st.lfail) /\ ~(st.lclosed /\ st.ret), {"C22.notStopped"} >>,
       << st.cancelled /\ \E c \in C : K(c).hsn > 0 /\ c \notin dead, {"C22.ctxAlive"} >> }))

\* memory allocated while e.got bytes were received, in kB
Mem(st, e) == F(st, IF e.kb > 6000 + e.got \div 20 THEN {"C17.memory"} ELSE {})

\* what the log of the harness itself has to look like
Sane(st, e) ==
  CASE e.e = "in" -> st.cs[e.c].skip >= 0
    [] OTHER -> TRUE

Apply(st0, e) ==
  LET st == Tick(st0, e.t) IN
  CASE e.e = "start"   -> [st EXCEPT !.vt = e.vt, !.shared = e.shared]
    [] e.e = "open"    -> [st EXCEPT !.cs = @ @@ (e.c :> Conn0)]
    [] e.e = "acc"     -> [st EXCEPT !.cs[e.c].acc = TRUE, !.lastAcc = e.c]
    [] e.e = "src"     -> [st EXCEPT !.hof = @ @@ (e.h :> st.lastAcc)]
    [] e.e = "in"      -> In(st, e)
    [] e.e = "eof"     -> [st EXCEPT !.cs[e.c].eof = TRUE, !.faults = @ + 1]
    [] e.e = "werr"    -> [st EXCEPT !.cs[e.c].werr = TRUE, !.faults = @ + 1]
    [] e.e = "cancel"  -> [st EXCEPT !.cancelled = TRUE]
    [] e.e = "cb"      -> Cb(st, e)
    [] e.e = "cbe"     -> CbEnd(st, e)
    [] e.e = "changed" -> F(st, {"C16.changed"})   \* what was handed over earlier
    [] e.e = "snd"     -> Snd(st, e)
    [] e.e = "snt"     -> Snt(st, e)
    [] e.e = "out"     -> Out(st, e)
    [] e.e = "closed"  -> Closed(st, e)
    [] e.e = "lclosed" -> F([st EXCEPT !.lclosed = TRUE], IF st.cancelled \/ st.lfail THEN {} ELSE {"C22.listenerClosed"})
    [] e.e = "ret"     -> F([st EXCEPT !.ret = TRUE], IF (st.cancelled \/ st.lfail) /\ e.err THEN {} ELSE {"C22.returned"})
    \* what e.n connections left behind when they had ended, what e.n frames did
    [] e.e = "left"    -> F(st, Broken({ << 4 * e.gr > e.n, {"C25.goroutines"} >>, << 4 * e.kept > e.n, {"C25.kept"} >> }))
    [] e.e = "grown"   -> F(st, Broken({ << 100 * e.gr > e.n, {"C25.goroutines"} >>, << e.b > 2 * e.n, {"C25.memory"} >> }))
    \* a very long history, as the sequences of numbers it consists of
    [] e.e = "bulk"    -> F(st, Broken({ << e.saw # e.sent, {"C16.bulk"} >>, << e.refused > 0 \/ e.out # e.push, {"C20.bulk"} >>,
                                          << e.parts # e.syncs, {"C18.bulk"} >>, << e.closed # e.conns, {"C19.bulk"} >> }))
    \* the program closes its listener itself; it serves another one later
    [] e.e = "lfail"   -> [st EXCEPT !.lfail = TRUE, !.lclosed = TRUE]
    [] e.e = "serve"   -> [st EXCEPT !.lfail = FALSE, !.lclosed = FALSE, !.ret = FALSE]
    [] e.e = "mem"     -> Mem(st, e)
    \* contexts of callbacks that have returned: they belong to the connection
    [] e.e = "late"    -> F(st, IF \E c \in Range(e.cs) \cap DOMAIN st.cs : ~MayEnd(st, c) THEN {"C19.ctxEarly"} ELSE {})
    [] e.e = "q"       -> Quiet(st, e)
    [] OTHER           -> st
=============================================================================
