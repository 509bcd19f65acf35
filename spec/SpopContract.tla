---------------------------- MODULE SpopContract ----------------------------
(* The observable contract of an SPOP agent, as a deterministic monitor.    *)
(*                                                                          *)
(* An event is something HAProxy (the environment) did to the agent, or     *)
(* something that can be observed of the agent: a frame on a connection, a  *)
(* handler that starts, reads or returns, a closed connection, a state in   *)
(* which nothing moves any more ("q").  Apply(st, e) is the state of the    *)
(* contract after event e; every rule an event breaks is added to st.fails  *)
(* as "Cnn.rule", Cnn being the property (properties.jsonl) it belongs to.  *)
(*                                                                          *)
(* The same operators are used twice: Spop.tla composes them with a model   *)
(* of the implementation, for TLC to show that no interleaving of it breaks *)
(* a rule, and SpopTrace.tla applies them to the events recorded from the   *)
(* real code.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxFrame0  == 65535     \* limit before the handshake
MinOffer   == 256

Has(e, f) == f \in DOMAIN e
Range(s)  == { s[i] : i \in DOMAIN s }

Conn0 == [ acc    |-> FALSE,   \* accepted by the agent
           ph     |-> "new",   \* new: no HELLO yet; offered: valid HELLO received
           lim    |-> MaxFrame0,
           mfs    |-> "",
           why    |-> {},      \* reasons why the connection has to end
           werr   |-> FALSE,   \* writing to it fails
           taint  |-> FALSE,   \* a second HELLO: may end or go on
           hello  |-> FALSE,   \* AGENT-HELLO sent
           disc   |-> FALSE,   \* AGENT-DISCONNECT sent
           discs  |-> 0,       \* HAPROXY-DISCONNECT frames received
           junk   |-> FALSE,
           closed |-> FALSE ]

Start == [ w |-> 1, cs |-> <<>>, jobs |-> <<>>, own |-> <<>>, faults |-> 0, odd |-> 0,
           cancelled |-> FALSE, lfail |-> FALSE, lclosed |-> FALSE, ret |-> FALSE, fails |-> {},
           lag |-> FALSE ]   \* frames of the agent are noticed later than what handlers do

F(st, rules) == [st EXCEPT !.fails = @ \cup rules]

\* the rules whose condition is true; rs is a set of <<condition, tags>>
Broken(rs) == UNION { r[2] : r \in { r \in rs : r[1] } }

Live(st, c) == LET k == st.cs[c] IN
  /\ ~k.closed /\ k.why = {} /\ ~k.werr /\ ~k.taint /\ ~st.cancelled
  /\ (k.acc \/ ~st.lfail)

Total(j) == j.hdr + j.alen
AllDone(j) == j.next > Len(j.msgs) /\ ~j.run

\* --------------------------------------------------------------------------
\* HAProxy sends a frame

ValidOffer(e) == e.int /\ ~e.big /\ e.lo >= MinOffer /\ e.ok

AddJob(st, e, legal) ==
  LET n == Len(st.jobs) + 1
      job == [ c |-> e.c, sid |-> e.sid, fid |-> e.fid, hdr |-> e.hdr, msgs |-> e.msgs,
               bad |-> e.bad, len |-> e.len, legal |-> legal, next |-> 1, run |-> FALSE,
               failed |-> FALSE, acked |-> FALSE, acts |-> <<>>, alen |-> 0 ]
  IN [st EXCEPT !.jobs = Append(@, job),
                !.own = @ @@ [ u \in { e.msgs[i].u : i \in DOMAIN e.msgs } |->
                               << n, CHOOSE i \in DOMAIN e.msgs : e.msgs[i].u = u >> ],
                !.faults = IF e.bad THEN @ + 1 ELSE @]

\* why a frame must not be handled: the tags to report if it is
NotLegal(k) ==
  CASE k.ph = "new"            -> {"C04.early"}
    [] "bad" \in k.why         -> {"C04.rejected", "C07.after"}
    [] "toolong" \in k.why     -> {"C05.handled", "C07.after"}
    [] "health" \in k.why      -> {"C07.health"}
    [] "fatal" \in k.why       -> {"C07.after"}
    [] OTHER                   -> {}

In(st, e) ==
  LET c == e.c
      k == st.cs[c]
      End(w) == [[st EXCEPT !.cs[c].why = @ \cup w] EXCEPT !.faults = @ + 1]
      stopped == k.why \cap {"bad", "toolong", "health", "fatal"} # {}
  IN CASE e.k = "notify" /\ (stopped \/ k.ph = "new") ->
            LET s1 == AddJob(st, e, NotLegal(k))
            IN IF k.ph = "new" THEN [s1 EXCEPT !.cs[c].why = @ \cup {"bad"}, !.faults = @ + 1] ELSE s1
       [] stopped -> st
       [] e.k = "fatal" -> End(IF k.ph = "new" THEN {"bad"} ELSE {"fatal"})
       [] k.ph = "new" ->
            IF e.k \in {"hello", "hello2"} /\ e.len <= k.lim /\ ValidOffer(e)
            THEN [st EXCEPT !.cs[c].ph = "offered", !.cs[c].lim = e.lo, !.cs[c].mfs = e.mfs,
                            !.cs[c].why = IF e.health THEN @ \cup {"health"} ELSE @]
            ELSE End({"bad"} \cup (IF e.k \in {"hello", "hello2"} /\ e.health THEN {"health"} ELSE {}))
       [] e.len > k.lim ->
            IF e.k = "notify" THEN [AddJob(st, e, {"C05.handled"}) EXCEPT !.cs[c].why = @ \cup {"toolong"}, !.faults = @ + 1]
            ELSE End({"toolong"})
       [] e.k = "notify" -> AddJob(st, e, {})
       [] e.k \in {"hello", "hello2"} -> [st EXCEPT !.cs[c].taint = TRUE, !.faults = @ + 1, !.odd = @ + 1]
       [] e.k = "disc" -> [st EXCEPT !.cs[c].why = @ \cup {"disc"}, !.cs[c].discs = @ + 1]
       [] OTHER -> [st EXCEPT !.faults = @ + 1, !.odd = @ + 1]   \* unknown frames are ignored

\* the length of a frame has arrived, which is enough to reject it
HeadOf(st, e) ==
  LET k == st.cs[e.c] IN
  IF k.why \cap {"bad", "toolong", "health", "fatal"} # {} \/ e.len <= k.lim THEN st
  ELSE [st EXCEPT !.cs[e.c].why = @ \cup {IF k.ph = "new" THEN "bad" ELSE "toolong"}, !.faults = @ + 1]

\* --------------------------------------------------------------------------
\* handlers

NoMsg == "'zz'"   \* the name malformed frames of the generator may start with

Hs(st, e) ==
  IF e.u = 0 \/ e.u \notin DOMAIN st.own
  THEN F(st, IF e.nm = NoMsg /\ (\E j \in DOMAIN st.jobs : st.jobs[j].bad) THEN {} ELSE {"C02.unknown", "C01.unknown"})
  ELSE
  LET j == st.own[e.u][1]
      m == st.own[e.u][2]
      job == st.jobs[j]
      c == job.c
      ok == ~job.run /\ ~job.failed /\ m = job.next
  IN F([st EXCEPT !.jobs[j].run = TRUE],
       Broken({ << job.legal # {}, job.legal >>,
                << ~st.cs[c].hello /\ ~st.cs[c].werr /\ ~st.lag, {"C04.beforeHello"} >>,
                << m < job.next \/ (m = job.next /\ job.run), {"C02.twice", "C08.twice"} >>,
                << m >= job.next /\ ~ok /\ ~(m = job.next /\ job.run), {"C02.order"} >>,
                << e.nm # job.msgs[m].nm, {"C02.name"} >>,
                << e.x /\ Live(st, c), {"C07.ctxEarly"} >> }))

Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

Known(st, u) == u \in DOMAIN st.own
Unknown(st)  == F(st, {"C02.unknown", "C01.unknown"})

Rd(st, e) ==
  IF ~Known(st, e.u) THEN Unknown(st) ELSE
  LET job == st.jobs[st.own[e.u][1]]
      want == job.msgs[st.own[e.u][2]].a
  IN F(st, Broken({ << ~Prefix(e.a, want), {"C02.args"} >>,
                    << e.full /\ (e.a # want \/ e.err), {"C02.argsEnd"} >> }))

Rr(st, e) ==
  IF ~Known(st, e.u) THEN Unknown(st) ELSE
  LET job == st.jobs[st.own[e.u][1]]
      msg == job.msgs[st.own[e.u][2]]
  IN F(st, Broken({ << e.nm # msg.nm \/ ~Prefix(e.a, msg.a), {"C02.changed"} >> }))

He(st, e) ==
  IF ~Known(st, e.u) THEN Unknown(st) ELSE
  LET j == st.own[e.u][1] IN
  [st EXCEPT !.jobs[j].run = FALSE, !.jobs[j].next = @ + 1,
             !.jobs[j].acts = @ \o e.acts, !.jobs[j].alen = @ + e.alen,
             !.jobs[j].failed = @ \/ e.p,
             !.faults = IF e.p THEN @ + 1 ELSE @]

Near(n, lim) == n >= lim - 8
EdgeIn(st, j) == LET b == st.jobs[j] IN Near(b.len, st.cs[b.c].lim) \/ b.len >= 65000
EdgeAck(st, j) == LET b == st.jobs[j] IN AllDone(b) /\ (Near(Total(b), st.cs[b.c].lim) \/ Total(b) >= 65000)

\* --------------------------------------------------------------------------
\* frames sent by the agent

Ack(st, e) ==
  LET c == e.c
      k == st.cs[c]
      Is(j) == st.jobs[j].sid = e.sid /\ st.jobs[j].fid = e.fid
      here == { j \in DOMAIN st.jobs : Is(j) /\ st.jobs[j].c = c }
      other == { j \in DOMAIN st.jobs : Is(j) /\ st.jobs[j].c # c }
  IN IF here = {}
     THEN F(st, {"C01.unmatched"} \cup (IF other # {} THEN {"C23.wrongConn"} ELSE {}))
     ELSE
     LET j == CHOOSE j \in here : TRUE
         job == st.jobs[j]
     IN F([st EXCEPT !.jobs[j].acked = TRUE],
          Broken({ << job.acked, {"C01.twice", "C08.ackTwice"} >>,
                   << job.bad, {"C01.ackOfMalformed"} >>,
                   << job.failed, {"C01.ackOfPanic"} >>,
                   << ~job.bad /\ ~job.failed /\ ~AllDone(job), {"C01.ackEarly"} >>,
                   << AllDone(job) /\ e.acts # job.acts, {"C01.actions"} >>,
                   << ~e.fin, {"C01.fin"} >>,
                   << e.len > k.lim, {"C05.ackTooLong"} >>,
                   << job.legal # {}, job.legal >>,
                   << ~k.hello, {"C04.ackBeforeHello"} >>,
                   << "health" \in k.why, {"C07.health"} >> }))

Hello(st, e) ==
  LET k == st.cs[e.c] IN
  F([st EXCEPT !.cs[e.c].hello = TRUE],
    Broken({ << k.ph # "offered", {"C04.accepted"} >>,
             << k.hello, {"C04.second"} >>,
             << k.ph = "offered" /\ e.mfs # k.mfs, {"C04.size", "C23.size"} >>,
             << e.ver # "str:'2.0'", {"C04.version"} >> }))

\* the agent gives up a connection that is fine: whose fault that may be
EndedEarly(st, c) ==
  LET k == st.cs[c]
      mine == { j \in DOMAIN st.jobs : st.jobs[j].c = c /\ ~st.jobs[j].acked }
  IN IF ~Live(st, c) THEN {} ELSE
     (IF k.ph = "offered" /\ ~k.hello THEN {"C04.closed"} ELSE {})
     \cup (IF st.faults > 0 THEN {"C06.closed"} ELSE {})
     \cup (IF \E j \in mine : EdgeIn(st, j) \/ EdgeAck(st, j) THEN {"C05.closed"} ELSE {})

Disc(st, e) ==
  F([st EXCEPT !.cs[e.c].disc = TRUE],
    EndedEarly(st, e.c) \cup
    Broken({ << Live(st, e.c), {"C07.discEarly"} >>,
             << st.cs[e.c].why = {"health"} /\ ~st.cancelled, {"C07.health"} >> }))

Out(st, e) ==
  CASE e.k = "ack"   -> Ack(st, e)
    [] e.k = "hello" -> Hello(st, e)
    [] e.k = "disc"  -> Disc(st, e)
    [] OTHER         -> F([st EXCEPT !.cs[e.c].junk = TRUE], {"C03.notAFrame"})

Closed(st, e) ==
  LET k == st.cs[e.c]
      protocol == k.why \in {{"disc"}, {"bad"}, {"fatal"}, {"toolong"}}
  IN F([st EXCEPT !.cs[e.c].closed = TRUE],
       EndedEarly(st, e.c) \cup
       Broken({ << Live(st, e.c), {"C07.closedEarly"} >>,
                << protocol /\ ~k.disc /\ ~k.werr /\ ~k.taint /\ ~st.cancelled, {"C07.noDisconnect"} >>,
                << k.why = {"health"} /\ ~k.hello /\ ~k.werr /\ ~st.cancelled, {"C07.noHello", "C04.unanswered"} >> }))

\* --------------------------------------------------------------------------
\* Nothing moves any more: everything that is not waiting for HAProxy, for a
\* handler or for a worker has to be done.

Quiet(st, e) ==
  LET
    wb    == Range(e.wb)
    run   == Range(e.run) \cap (DOMAIN st.own \cup {0})
    dead  == Range(e.dead) \cap (DOMAIN st.own \cup {0})
    part  == Range(e.part)
    J     == DOMAIN st.jobs
    \* jobs that may occupy a worker: a handler runs, or an answer is blocked
    stuck == { j \in J : LET b == st.jobs[j] IN b.run \/ (b.c \in wb /\ ~b.acked /\ b.next > Len(b.msgs)) }
    zero  == IF \E j \in J : st.jobs[j].bad THEN { u \in run : u = 0 } ELSE {}
    RECURSIVE Discs(_)
    Discs(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN st.cs[c].discs + Discs(S \ {c})
    busy  == Cardinality(stuck) + Discs(wb) + Cardinality(zero)
    free  == busy < st.w
    \* while the AGENT-HELLO is held back nothing has to be read
    Due(j) == LET b == st.jobs[j] IN Live(st, b.c) /\ (b.c \notin wb \/ st.cs[b.c].hello) /\ ~b.bad /\ ~b.failed /\ ~b.acked /\ ~b.run
    sf    == IF st.faults > 0 THEN {"C06.lost"} ELSE {}
    unstarted == { j \in J : Due(j) /\ st.jobs[j].next = 1 /\ st.jobs[j].msgs # <<>> }
    between   == { j \in J : Due(j) /\ st.jobs[j].next > 1 /\ ~AllDone(st.jobs[j]) }
    unacked   == { j \in J : Due(j) /\ AllDone(st.jobs[j]) /\ st.jobs[j].c \notin wb
                             /\ Total(st.jobs[j]) <= st.cs[st.jobs[j].c].lim }
    C     == DOMAIN st.cs
    Ending(c) == st.cs[c].acc /\ st.cs[c].why # {} /\ ~st.cs[c].closed /\ c \notin wb
    jobFails ==
      IF ~free THEN {} ELSE
      Broken({ << unstarted # {}, {"C08.notStarted", "C02.missing", "C01.noAck"} \cup sf >>,
               << \E j \in unstarted : EdgeIn(st, j), {"C05.notAccepted"} >>,
               << between # {}, {"C08.stalled", "C02.missing", "C01.noAck"} \cup sf >>,
               << unacked # {}, {"C01.noAck"} \cup sf >>,
               << \E j \in unacked : EdgeAck(st, j), {"C05.notSent"} >> })
    connFails ==
      IF ~free THEN {} ELSE
      Broken({ << \E c \in C : st.cs[c].ph = "offered" /\ ~st.cs[c].hello /\ c \notin wb
                               /\ (Live(st, c) \/ (st.cs[c].why = {"health"} /\ ~st.cs[c].werr /\ ~st.cancelled /\ (st.cs[c].acc \/ ~st.lfail))), {"C04.unanswered"} \cup sf >>,
               << \E c \in C : ~st.cs[c].acc /\ ~st.cancelled /\ ~st.lfail, {"C08.notAccepted", "C22.notAccepting"} \cup sf >>,
               << \E c \in C : Ending(c), {"C07.notClosed"} >>,
               << \E c \in C : Ending(c) /\ "bad" \in st.cs[c].why, {"C04.notClosed"} >>,
               << \E c \in C : Ending(c) /\ "toolong" \in st.cs[c].why, {"C05.notClosed"} >>,
               << \E u \in run \ {0} : LET k == st.cs[st.jobs[st.own[u][1]].c] IN k.why # {} /\ k.closed /\ u \notin dead, {"C07.ctxAlive"} >>,
               << \E c \in part : c \notin wb /\ ~st.cs[c].werr /\ ~st.cs[c].closed /\ ~st.cs[c].junk, {"C03.incomplete"} >> })
    \* nothing but the end of the connections is left to be read
    waiting == { j \in J : LET b == st.jobs[j] IN ~b.acked /\ ~b.failed /\ ~b.run /\ b.next = 1 }
    allIn == busy <= st.w /\ waiting = {} /\ (free \/ st.odd = 0)
    ctxFails ==
      Broken({ << allIn /\ \E u \in run \ {0} : "eof" \in st.cs[st.jobs[st.own[u][1]].c].why /\ u \notin dead, {"C07.ctxAlive"} >>,
               << \E u \in dead \ {0} : Live(st, st.jobs[st.own[u][1]].c), {"C07.ctxEarly"} >>,
               << (st.cancelled \/ st.lfail) /\ ~(st.lclosed /\ st.ret), {"C22.notStopped"} >>,
               << st.cancelled /\ run \ dead # {}, {"C22.ctxAlive"} >>,
               << e.final /\ e.live # 0, {"C22.ctxAlive", "C07.ctxAlive"} >> })
  IN IF ~e.ok THEN F(st, {"C08.livelock", "C07.livelock", "C06.livelock"})
     ELSE F(st, jobFails \cup connFails \cup ctxFails)

\* what the log of the harness itself has to look like
Sane(st, e) ==
  CASE e.e = "q" -> (Range(e.run) \ {0}) = { u \in DOMAIN st.own : LET j == st.own[u] IN st.jobs[j[1]].run /\ st.jobs[j[1]].next = j[2] }
    [] OTHER -> TRUE

Apply(st, e) ==
  CASE e.e = "start"   -> [st EXCEPT !.w = e.w, !.lag = Has(e, "lag")]
    [] e.e = "open"    -> [st EXCEPT !.cs = @ @@ (e.c :> Conn0)]
    [] e.e = "acc"     -> [st EXCEPT !.cs[e.c].acc = TRUE]
    [] e.e = "head"    -> HeadOf(st, e)
    [] e.e = "in"      -> In(st, e)
    [] e.e = "eof"     -> [st EXCEPT !.cs[e.c].why = @ \cup {"eof"}, !.faults = @ + 1]
    [] e.e = "werr"    -> [st EXCEPT !.cs[e.c].werr = TRUE, !.faults = @ + 1]
    [] e.e = "oddconn" -> [st EXCEPT !.faults = @ + 1]   \* accepted, but gone already
    [] e.e = "cancel"  -> [st EXCEPT !.cancelled = TRUE]
    [] e.e = "hs"      -> Hs(st, e)
    [] e.e = "rd"      -> Rd(st, e)
    [] e.e = "rr"      -> Rr(st, e)
    [] e.e = "he"      -> He(st, e)
    [] e.e = "out"     -> Out(st, e)
    [] e.e = "closed"  -> Closed(st, e)
    [] e.e = "rst"     -> F(st, {"C07.reset"})   \* whatever was still under way is lost
    [] e.e = "lclosed" -> F([st EXCEPT !.lclosed = TRUE], IF st.cancelled \/ st.lfail THEN {} ELSE {"C22.listenerClosed"})
    [] e.e = "ret"     -> F([st EXCEPT !.ret = TRUE], IF (st.cancelled \/ st.lfail) /\ e.err THEN {} ELSE {"C22.returned"})
    \* what e.n connections left behind when they had ended, what e.n frames did
    [] e.e = "left"    -> F(st, Broken({ << 4 * e.gr > e.n, {"C25.goroutines"} >>, << 4 * e.kept > e.n, {"C25.kept"} >> }))
    [] e.e = "grown"   -> F(st, Broken({ << 100 * e.gr > e.n, {"C25.goroutines"} >>, << e.b > 2 * e.n, {"C25.memory"} >> }))
    \* a very long history, as the sequences of numbers it consists of
    [] e.e = "bulk"    -> F(st, Broken({ << e.saw # e.args, {"C02.bulk", "C08.bulk"} >>, << e.acked # e.sent, {"C01.bulk"} >> }))
    \* the program closes its listener itself; it serves another one later
    [] e.e = "lfail"   -> [st EXCEPT !.lfail = TRUE, !.lclosed = TRUE]
    [] e.e = "serve"   -> [st EXCEPT !.lfail = FALSE, !.lclosed = FALSE, !.ret = FALSE]
    \* contexts of handlers that have returned: they belong to the connection
    [] e.e = "late"    -> F(st, IF \E u \in Range(e.us) \cap DOMAIN st.own : Live(st, st.jobs[st.own[u][1]].c) THEN {"C07.ctxEarly"} ELSE {})
    [] e.e = "q"       -> Quiet(st, e)
=============================================================================
