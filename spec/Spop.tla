-------------------------------- MODULE Spop --------------------------------
(* A model of the SPOP agent of /repo/spop, shaped like the code: one reader *)
(* goroutine per connection (protocol.go Serve), a bounded queue with two    *)
(* condition variables (scheduler.go), W workers, pooled frame buffers       *)
(* (frame.go), a write lock per connection, frames written in several writes *)
(* (frame.go writeTo), handler contexts, and the three ways a connection     *)
(* ends (agent.go, protocol.go Close, onHAProxyDisconnect).                  *)
(*                                                                           *)
(* The environment (HAProxy, the network, the handlers, the owner of the     *)
(* base context) is nondeterministic within the budgets given by the         *)
(* constants.  Everything observable is fed to SpopContract; NoFailure says  *)
(* that no rule of it is ever broken, QuietOk that in every state in which   *)
(* the agent has nothing left to do everything due has been done.            *)
(*                                                                           *)
(* BUG # "none" replaces one step by a plausible mistake; each must be found *)
(* (negative controls for the contract).                                     *)
EXTENDS SpopContract, Json

CONSTANTS
  Conns,     \* set of connection numbers
  W,         \* workers
  QCap,      \* capacity of the queue (2 * W in the code)
  Kinds,     \* kinds of frames HAProxy may send after the HELLO
  Hellos,    \* kinds of frames HAProxy may send first
  MaxSend,   \* frames per connection
  Faults,    \* subset of {"eof", "werr", "cancel", "panic", "gate", "big", "serve"}
  BUG

VARIABLES
  st,        \* the contract
  inq, eof,  \* per connection: frames sent and not read, end of the stream
  sent,      \* number of frames sent, over all connections / per connection
  ctr,
  gate,      \* per connection: number of writes let through, or Open
  werr,
  rd,        \* readers: [pc, f, part]
  wk,        \* workers: [pc, f, c, m, part, acts, alen]
  queue, waitNE, waitNF,
  lock,      \* write lock per connection: holder or ""
  mem, used, \* frame buffers
  ctx, closed, gotHello, lim,
  stream,    \* per connection: parts of a frame written so far
  base, ln,  \* base context cancelled; state of the serve loop
  hist       \* environment actions, for the generation of test scripts

vars == << st, inq, eof, sent, ctr, gate, werr, rd, wk, queue, waitNE, waitNF, lock, mem, used,
           ctx, closed, gotHello, lim, stream, base, ln, hist >>

\* everything except the history, to not explore a state once per history
view == << st, inq, eof, sent, ctr, gate, werr, rd, wk, queue, waitNE, waitNF, lock, mem, used,
           ctx, closed, gotHello, lim, stream, base, ln >>

Workers == 1..W
OpenGate == 99
Lim == 16380
NoFrame == [k |-> "none"]

\* --------------------------------------------------------------------------
\* frames

U(n, i) == 2 * n - 2 + i
Msg(n, i) == [ u |-> U(n, i), nm |-> ToString(U(n, i)), a |-> << "a" \o ToString(U(n, i)) >> ]

Frame(c, k, n) ==
  LET b == [ e |-> "in", c |-> c, len |-> 50, sid |-> "s", fid |-> ToString(n) ]
      ntfy(ms, bad) == b @@ [ k |-> "notify", hdr |-> 7, msgs |-> ms, bad |-> bad ]
      hel(lo, health) == b @@ [ k |-> "hello", int |-> TRUE, big |-> FALSE, lo |-> lo, mfs |-> ToString(lo), health |-> health, ok |-> TRUE ]
  IN CASE k = "n0"     -> ntfy(<<>>, FALSE)
       [] k = "n1"     -> ntfy(<< Msg(n, 1) >>, FALSE)
       [] k = "n2"     -> ntfy(<< Msg(n, 1), Msg(n, 2) >>, FALSE)
       [] k = "bad"    -> ntfy(<< Msg(n, 1) >>, TRUE)
       [] k = "long"   -> [ntfy(<< Msg(n, 1) >>, FALSE) EXCEPT !.len = Lim + 1]
       [] k = "edge"   -> [ntfy(<< Msg(n, 1) >>, FALSE) EXCEPT !.len = Lim]
       [] k = "hello"  -> hel(Lim, FALSE)
       [] k = "small"  -> hel(255, FALSE)
       [] k = "health" -> hel(Lim, TRUE)
       [] k = "hello2" -> [hel(Lim - 1, FALSE) EXCEPT !.k = "hello2"]
       [] k = "disc"   -> b @@ [ k |-> "disc" ]
       [] k = "fatal"  -> b @@ [ k |-> "fatal" ]
       [] k = "unknown" -> b @@ [ k |-> "unknown" ]

\* --------------------------------------------------------------------------

R0 == [ pc |-> "none", buf |-> 0, part |-> 0 ]
W0 == [ pc |-> "get", buf |-> 0, c |-> 0, m |-> 0, part |-> 0, acts |-> <<>>, alen |-> 0 ]

Init ==
  /\ st = [Apply(Start, [e |-> "start", w |-> W]) EXCEPT !.cs = [c \in Conns |-> Conn0]]
  /\ inq = [c \in Conns |-> <<>>]
  /\ eof = [c \in Conns |-> FALSE]
  /\ sent = [c \in Conns |-> 0]
  /\ ctr = 0
  /\ gate = [c \in Conns |-> OpenGate]
  /\ werr = [c \in Conns |-> FALSE]
  /\ rd = [c \in Conns |-> R0]
  /\ wk = [k \in Workers |-> W0]
  /\ queue = <<>> /\ waitNE = {} /\ waitNF = {}
  /\ lock = [c \in Conns |-> ""]
  /\ mem = <<>> /\ used = {}
  /\ ctx = [c \in Conns |-> FALSE]
  /\ closed = [c \in Conns |-> FALSE]
  /\ gotHello = [c \in Conns |-> FALSE]
  /\ lim = [c \in Conns |-> MaxFrame0]
  /\ stream = [c \in Conns |-> <<>>]
  /\ base = FALSE /\ ln = "serving"
  /\ hist = <<>>

Dead(c) == ctx[c] \/ base

\* --------------------------------------------------------------------------
\* the environment

Send(c) ==
  /\ sent[c] < MaxSend /\ ~eof[c]
  /\ \E k \in (IF sent[c] = 0 THEN Hellos ELSE Kinds) :
       LET f == Frame(c, k, ctr + 1) IN
       /\ inq' = [inq EXCEPT ![c] = Append(@, f)]
       /\ st' = Apply(st, f)
       /\ hist' = Append(hist, << "send", c, k >>)
  /\ sent' = [sent EXCEPT ![c] = @ + 1]
  /\ ctr' = ctr + 1
  /\ UNCHANGED << eof, gate, werr, rd, wk, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base, ln >>

Eof(c) ==
  /\ "eof" \in Faults /\ ~eof[c]
  /\ eof' = [eof EXCEPT ![c] = TRUE]
  /\ st' = Apply(st, [e |-> "eof", c |-> c])
  /\ hist' = Append(hist, << "eof", c, "" >>)
  /\ UNCHANGED << inq, sent, ctr, gate, werr, rd, wk, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base, ln >>

Werr(c) ==
  /\ "werr" \in Faults /\ ~werr[c]
  /\ werr' = [werr EXCEPT ![c] = TRUE]
  /\ st' = Apply(st, [e |-> "werr", c |-> c])
  /\ hist' = Append(hist, << "werr", c, "" >>)
  /\ UNCHANGED << inq, eof, sent, ctr, gate, rd, wk, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base, ln >>

\* writes are held back from now on, one more is let through, all are
Gate(c) ==
  /\ "gate" \in Faults
  /\ \/ gate[c] = OpenGate /\ gate' = [gate EXCEPT ![c] = 0] /\ hist' = Append(hist, << "gate", c, "" >>)
     \/ gate[c] = 0 /\ gate' = [gate EXCEPT ![c] = 1] /\ hist' = Append(hist, << "permit", c, "" >>)
     \/ gate[c] = 0 /\ gate' = [gate EXCEPT ![c] = OpenGate] /\ hist' = Append(hist, << "ungate", c, "" >>)
  /\ UNCHANGED << st, inq, eof, sent, ctr, werr, rd, wk, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base, ln >>

Cancel ==
  /\ "cancel" \in Faults /\ ~base
  /\ base' = TRUE
  /\ st' = Apply(st, [e |-> "cancel"])
  /\ hist' = Append(hist, << "cancel", 0, "" >>)
  /\ UNCHANGED << inq, eof, sent, ctr, gate, werr, rd, wk, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, ln >>

\* a handler looks at its message again, records its action and returns or
\* panics.  What it sees of the message is what the frame buffer holds.
Finish(k) ==
  /\ wk[k].pc = "run"
  /\ LET f == mem[wk[k].buf]
         u == wk[k].u
         msg == IF f.k = "notify" /\ wk[k].m <= Len(f.msgs) THEN f.msgs[wk[k].m] ELSE [u |-> 0, nm |-> "?", a |-> <<"?">>]
         act == << "act" \o ToString(u) >>
         s1 == Apply(st, [e |-> "rr", u |-> u, nm |-> msg.nm, a |-> msg.a])
     IN \E how \in {"ok"} \cup (Faults \cap {"panic", "big"}) :
          LET n == IF how = "big" THEN Lim ELSE 10 IN
          /\ st' = Apply(s1, [e |-> "he", u |-> u, acts |-> act, alen |-> n, p |-> how = "panic"])
          /\ hist' = Append(hist, << "finish", u, how >>)
          /\ IF how = "panic"
             THEN IF BUG = "nopanicguard"
                  THEN wk' = [wk EXCEPT ![k] = [@ EXCEPT !.pc = "gone"]]
                  ELSE wk' = [wk EXCEPT ![k] = [@ EXCEPT !.pc = "release"]]
             ELSE wk' = [wk EXCEPT ![k] = [@ EXCEPT !.pc = "next", !.m = @ + 1, !.acts = @ \o act, !.alen = @ + n]]
  /\ UNCHANGED << inq, eof, sent, ctr, gate, werr, rd, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base, ln >>

\* the program closes its listener itself, and serves another one later
LFail ==
  /\ "serve" \in Faults /\ ln = "serving" /\ ~base
  /\ ln' = "closed"
  /\ st' = Apply(st, [e |-> "lfail"])
  /\ hist' = Append(hist, << "lfail", 0, "" >>)
  /\ UNCHANGED << inq, eof, sent, ctr, gate, werr, rd, wk, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base >>

Serve ==
  /\ "serve" \in Faults /\ ln = "returned" /\ ~base
  /\ ln' = IF BUG = "serveonce" THEN "closed" ELSE "serving"
  /\ st' = Apply(st, [e |-> "serve"])
  /\ hist' = Append(hist, << "serve", 0, "" >>)
  /\ UNCHANGED << inq, eof, sent, ctr, gate, werr, rd, wk, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base >>

Env == (\E c \in Conns : Send(c) \/ Eof(c) \/ Werr(c) \/ Gate(c)) \/ Cancel \/ LFail \/ Serve \/ (\E k \in Workers : Finish(k))

\* --------------------------------------------------------------------------
\* writing: one Write call of a frame of n parts. r is the outcome: "ok",
\* "err"; the frame is complete after its last part.

CanWrite(c) == closed[c] \/ werr[c] \/ gate[c] > 0

\* the stream and the contract after part p of a frame of n parts; whole is
\* the event to report when the last part follows all of the others
WriteOk(c, id, p, n, whole) ==
  LET s == Append(stream[c], << id, p >>) IN
  IF p = n
  THEN /\ stream' = [stream EXCEPT ![c] = <<>>]
       /\ st' = IF s = [i \in 1..n |-> << id, i >>] THEN Apply(st, whole) ELSE Apply(st, [e |-> "out", c |-> c, k |-> "junk"])
  ELSE stream' = [stream EXCEPT ![c] = s] /\ UNCHANGED st

Fails(c) == closed[c] \/ werr[c]
UseGate(c) == gate' = [gate EXCEPT ![c] = IF @ = OpenGate THEN @ ELSE @ - 1]

MayLock(c, who) == lock[c] = "" \/ BUG = "nolock"

\* --------------------------------------------------------------------------
\* serve loop

Accept(c) ==
  /\ ln = "serving" /\ rd[c].pc = "none"
  /\ rd' = [rd EXCEPT ![c] = [@ EXCEPT !.pc = "read"]]
  /\ st' = Apply(st, [e |-> "acc", c |-> c])
  /\ UNCHANGED << inq, eof, sent, ctr, gate, werr, wk, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base, ln, hist >>

CloseListener ==
  /\ base /\ ln = "serving"
  /\ ln' = "closed"
  /\ st' = Apply(st, [e |-> "lclosed"])
  /\ UNCHANGED << inq, eof, sent, ctr, gate, werr, rd, wk, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base, hist >>

Return ==
  /\ ln = "closed"
  /\ ln' = "returned"
  /\ st' = Apply(st, [e |-> "ret", err |-> TRUE])
  /\ UNCHANGED << inq, eof, sent, ctr, gate, werr, rd, wk, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base, hist >>

\* --------------------------------------------------------------------------
\* reader of connection c

Pc(c, pc) == rd' = [rd EXCEPT ![c].pc = pc]

FreeBuf == CHOOSE b \in 1..(Cardinality(used) + 1) : b \notin used

Read(c) ==
  /\ rd[c].pc = "read"
  /\ \/ /\ closed[c]
        /\ Pc(c, "end") /\ UNCHANGED << inq, mem, used, gotHello, lim, ctx >>
     \/ /\ ~closed[c] /\ inq[c] = <<>> /\ eof[c]
        /\ Pc(c, IF BUG = "eofleak" THEN "done" ELSE "end") /\ UNCHANGED << inq, mem, used, gotHello, lim, ctx >>
     \/ /\ ~closed[c] /\ inq[c] # <<>>
        /\ inq' = [inq EXCEPT ![c] = Tail(@)]
        /\ LET f == Head(inq[c])
               b == FreeBuf
               tooLong == IF BUG = "offbyone" THEN f.len >= lim[c] ELSE f.len > lim[c]
           IN IF tooLong \/ f.k = "fatal" \/ (~gotHello[c] /\ f.k \notin {"hello", "hello2"})
              THEN Pc(c, "end") /\ UNCHANGED << mem, used, gotHello, lim, ctx >>
              ELSE IF gotHello[c]
              THEN /\ mem' = (b :> f) @@ mem
                   /\ used' = used \cup {b}
                   /\ rd' = [rd EXCEPT ![c] = [@ EXCEPT !.pc = "put", !.buf = b]]
                   /\ UNCHANGED << gotHello, lim, ctx >>
              ELSE /\ gotHello' = [gotHello EXCEPT ![c] = TRUE]
                   /\ IF ValidOffer(f) \/ BUG = "anyoffer"
                      THEN /\ lim' = [lim EXCEPT ![c] = f.lo]
                           /\ rd' = [rd EXCEPT ![c] = [@ EXCEPT !.pc = "hlock", !.part = IF f.health THEN 1 ELSE 0]]
                      ELSE Pc(c, "end") /\ UNCHANGED lim
                   /\ UNCHANGED << mem, used, ctx >>
  /\ UNCHANGED << st, eof, sent, ctr, gate, werr, wk, queue, waitNE, waitNF, lock, closed, stream, base, ln, hist >>

\* AGENT-HELLO; part = 1 during "hlock" marks a health check
HelloLock(c) ==
  /\ rd[c].pc = "hlock" /\ MayLock(c, "r")
  /\ lock' = [lock EXCEPT ![c] = "r"]
  /\ rd' = [rd EXCEPT ![c].pc = IF rd[c].part = 1 THEN "hw1h" ELSE "hw1"]
  /\ UNCHANGED << st, inq, eof, sent, ctr, gate, werr, wk, queue, waitNE, waitNF, mem, used, ctx, closed, gotHello, lim, stream, base, ln, hist >>

HelloEvent(c) == [e |-> "out", c |-> c, k |-> "hello", mfs |-> ToString(lim[c]), ver |-> "str:'2.0'"]

HelloWrite(c) ==
  /\ rd[c].pc \in {"hw1", "hw2", "hw1h", "hw2h"} /\ CanWrite(c)
  /\ LET health == rd[c].pc \in {"hw1h", "hw2h"}
         p == IF rd[c].pc \in {"hw1", "hw1h"} THEN 1 ELSE 2
     IN IF Fails(c)
        THEN /\ Pc(c, "end") /\ lock' = [lock EXCEPT ![c] = ""]
             /\ ctx' = IF health THEN [ctx EXCEPT ![c] = TRUE] ELSE ctx
             /\ UNCHANGED << st, stream, gate >>
        ELSE /\ WriteOk(c, << "hello", c >>, p, 2, HelloEvent(c))
             /\ UseGate(c)
             /\ IF p = 1 THEN Pc(c, IF health THEN "hw2h" ELSE "hw2") /\ UNCHANGED << lock, ctx >>
                ELSE /\ lock' = [lock EXCEPT ![c] = ""]
                     /\ Pc(c, IF health THEN "end" ELSE "read")
                     /\ ctx' = IF health THEN [ctx EXCEPT ![c] = TRUE] ELSE ctx
  /\ UNCHANGED << inq, eof, sent, ctr, werr, wk, queue, waitNE, waitNF, mem, used, closed, gotHello, lim, base, ln, hist >>

Full == Len(queue) = QCap

\* waking one goroutine of a wait set, if there is any
Wake(S) == IF S = {} THEN {S} ELSE { S \ {x} : x \in S }

Put(c) ==
  /\ rd[c].pc = "put"
  /\ IF Full
     THEN /\ IF BUG = "dropfull"
             THEN Pc(c, "read") /\ used' = used \ {rd[c].buf} /\ UNCHANGED waitNF
             ELSE Pc(c, "wait") /\ waitNF' = waitNF \cup {c} /\ UNCHANGED used
          /\ UNCHANGED << queue, waitNE >>
     ELSE /\ queue' = Append(queue, << c, rd[c].buf >>)
          /\ waitNE' \in IF BUG = "nosignal" THEN {waitNE} ELSE Wake(waitNE)
          /\ Pc(c, "read")
          /\ used' = IF BUG = "earlyrelease" THEN used \ {rd[c].buf} ELSE used
          /\ UNCHANGED waitNF
  /\ UNCHANGED << st, inq, eof, sent, ctr, gate, werr, wk, lock, mem, ctx, closed, gotHello, lim, stream, base, ln, hist >>

Rewake(c) ==
  /\ rd[c].pc = "wait" /\ c \notin waitNF
  /\ Pc(c, "put")
  /\ UNCHANGED << st, inq, eof, sent, ctr, gate, werr, wk, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base, ln, hist >>

\* protocolClient.Close
End(c) ==
  /\ rd[c].pc = "end"
  /\ IF Dead(c) THEN Pc(c, "close") /\ UNCHANGED ctx
     ELSE ctx' = [ctx EXCEPT ![c] = TRUE] /\ Pc(c, "elock")
  /\ UNCHANGED << st, inq, eof, sent, ctr, gate, werr, wk, queue, waitNE, waitNF, lock, mem, used, closed, gotHello, lim, stream, base, ln, hist >>

EndLock(c) ==
  /\ rd[c].pc = "elock" /\ MayLock(c, "r")
  /\ lock' = [lock EXCEPT ![c] = "r"]
  /\ Pc(c, "ew1")
  /\ UNCHANGED << st, inq, eof, sent, ctr, gate, werr, wk, queue, waitNE, waitNF, mem, used, ctx, closed, gotHello, lim, stream, base, ln, hist >>

DiscEvent(c) == [e |-> "out", c |-> c, k |-> "disc"]

EndWrite(c) ==
  /\ rd[c].pc \in {"ew1", "ew2"} /\ CanWrite(c)
  /\ IF Fails(c)
     THEN Pc(c, "close") /\ lock' = [lock EXCEPT ![c] = ""] /\ UNCHANGED << st, stream, gate >>
     ELSE /\ WriteOk(c, << "rdisc", c >>, IF rd[c].pc = "ew1" THEN 1 ELSE 2, 2, DiscEvent(c))
          /\ UseGate(c)
          /\ IF rd[c].pc = "ew1" THEN Pc(c, "ew2") /\ UNCHANGED lock
             ELSE Pc(c, "close") /\ lock' = [lock EXCEPT ![c] = ""]
  /\ UNCHANGED << inq, eof, sent, ctr, werr, wk, queue, waitNE, waitNF, mem, used, ctx, closed, gotHello, lim, base, ln, hist >>

DoClose(c) ==
  /\ closed' = [closed EXCEPT ![c] = TRUE]
  /\ st' = IF closed[c] THEN st ELSE Apply(st, [e |-> "closed", c |-> c])

EndClose(c) ==
  /\ rd[c].pc = "close"
  /\ DoClose(c)
  /\ Pc(c, "done")
  /\ UNCHANGED << inq, eof, sent, ctr, gate, werr, wk, queue, waitNE, waitNF, lock, mem, used, ctx, gotHello, lim, stream, base, ln, hist >>

Reader(c) == Read(c) \/ HelloLock(c) \/ HelloWrite(c) \/ Put(c) \/ Rewake(c) \/ End(c) \/ EndLock(c) \/ EndWrite(c) \/ EndClose(c)

\* --------------------------------------------------------------------------
\* worker k

Wpc(k, pc) == wk' = [wk EXCEPT ![k].pc = pc]

Get(k) ==
  /\ wk[k].pc = "get"
  /\ IF queue = <<>>
     THEN Wpc(k, "wait") /\ waitNE' = waitNE \cup {k} /\ UNCHANGED << queue, waitNF >>
     ELSE /\ wk' = [wk EXCEPT ![k] = [W0 EXCEPT !.pc = "handle", !.c = Head(queue)[1], !.buf = Head(queue)[2], !.m = 1] @@ [u |-> 0]]
          /\ queue' = Tail(queue)
          /\ waitNF' \in IF BUG = "nonotfull" THEN {waitNF} ELSE Wake(waitNF)
          /\ UNCHANGED waitNE
  /\ UNCHANGED << st, inq, eof, sent, ctr, gate, werr, rd, lock, mem, used, ctx, closed, gotHello, lim, stream, base, ln, hist >>

Rewake2(k) ==
  /\ wk[k].pc = "wait" /\ k \notin waitNE
  /\ Wpc(k, "get")
  /\ UNCHANGED << st, inq, eof, sent, ctr, gate, werr, rd, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base, ln, hist >>

Handle(k) ==
  /\ wk[k].pc = "handle"
  /\ LET f == mem[wk[k].buf]
         c == wk[k].c
     IN CASE f.k = "notify" -> Wpc(k, "next") /\ UNCHANGED ctx
          [] f.k = "disc" -> ctx' = [ctx EXCEPT ![c] = TRUE] /\ Wpc(k, IF BUG = "nodiscreply" THEN "dclose" ELSE "dlock")
          [] OTHER -> Wpc(k, "release") /\ UNCHANGED ctx   \* unknown frame, or the panic of a second HELLO
  /\ UNCHANGED << st, inq, eof, sent, ctr, gate, werr, rd, queue, waitNE, waitNF, lock, mem, used, closed, gotHello, lim, stream, base, ln, hist >>

\* the next message of the frame, or the end of it
NextMsg(k) ==
  /\ wk[k].pc = "next"
  /\ LET w == wk[k]
         f == mem[w.buf]
         ms == IF f.k = "notify" THEN f.msgs ELSE <<>>
     IN IF w.m <= Len(ms)
        THEN /\ st' = Apply(st, [e |-> "hs", u |-> ms[w.m].u, nm |-> ms[w.m].nm, x |-> Dead(w.c)])
             /\ wk' = [wk EXCEPT ![k].pc = "run", ![k].u = ms[w.m].u]
        ELSE /\ UNCHANGED st
             /\ Wpc(k, IF f.k = "notify" /\ ((f.bad /\ BUG # "ackbad") \/ f.hdr + w.alen > lim[w.c]) THEN "release" ELSE "alock")
  /\ UNCHANGED << inq, eof, sent, ctr, gate, werr, rd, queue, waitNE, waitNF, lock, mem, used, ctx, closed, gotHello, lim, stream, base, ln, hist >>

WLock(k) ==
  /\ wk[k].pc \in {"alock", "dlock"} /\ MayLock(wk[k].c, k)
  /\ lock' = [lock EXCEPT ![wk[k].c] = "w"]
  /\ wk' = [wk EXCEPT ![k].pc = IF @ = "alock" THEN "awrite" ELSE "dwrite", ![k].part = 1]
  /\ UNCHANGED << st, inq, eof, sent, ctr, gate, werr, rd, queue, waitNE, waitNF, mem, used, ctx, closed, gotHello, lim, stream, base, ln, hist >>

AckEvent(k) == LET w == wk[k] IN LET f == mem[w.buf] IN
  [e |-> "out", c |-> w.c, k |-> "ack", sid |-> f.sid, fid |-> f.fid, fin |-> TRUE, acts |-> w.acts, len |-> 7 + w.alen]

\* an ACK is written in three parts (two without actions), a disconnect in two
WWrite(k) ==
  /\ wk[k].pc \in {"awrite", "dwrite"} /\ CanWrite(wk[k].c)
  /\ LET w == wk[k]
         c == w.c
         ack == w.pc = "awrite"
         n == IF ack /\ w.acts # <<>> THEN 3 ELSE 2
         to == IF ack THEN "release" ELSE "dclose"
     IN IF Fails(c)
        THEN Wpc(k, to) /\ lock' = [lock EXCEPT ![c] = ""] /\ UNCHANGED << st, stream, gate >>
        ELSE /\ WriteOk(c, << w.pc, k, w.buf >>, w.part, n, IF ack THEN AckEvent(k) ELSE DiscEvent(c))
             /\ UseGate(c)
             /\ IF w.part = n
                THEN Wpc(k, to) /\ lock' = [lock EXCEPT ![c] = ""]
                ELSE wk' = [wk EXCEPT ![k].part = @ + 1] /\ UNCHANGED lock
  /\ UNCHANGED << inq, eof, sent, ctr, werr, rd, queue, waitNE, waitNF, mem, used, ctx, closed, gotHello, lim, base, ln, hist >>

DClose(k) ==
  /\ wk[k].pc = "dclose"
  /\ IF BUG = "nodiscclose" THEN UNCHANGED << closed, st >> ELSE DoClose(wk[k].c)
  /\ Wpc(k, "release")
  /\ UNCHANGED << inq, eof, sent, ctr, gate, werr, rd, queue, waitNE, waitNF, lock, mem, used, ctx, gotHello, lim, stream, base, ln, hist >>

Release(k) ==
  /\ wk[k].pc = "release"
  /\ used' = IF BUG = "keepbuf" THEN used ELSE used \ {wk[k].buf}
  /\ mem' = [b \in DOMAIN mem \ (IF BUG = "earlyrelease" THEN {} ELSE {wk[k].buf}) |-> mem[b]]
  /\ wk' = [wk EXCEPT ![k] = W0]
  /\ UNCHANGED << st, inq, eof, sent, ctr, gate, werr, rd, queue, waitNE, waitNF, lock, ctx, closed, gotHello, lim, stream, base, ln, hist >>

Worker(k) == Get(k) \/ Rewake2(k) \/ Handle(k) \/ NextMsg(k) \/ WLock(k) \/ WWrite(k) \/ DClose(k) \/ Release(k)

Agent == (\E c \in Conns : Accept(c) \/ Reader(c)) \/ CloseListener \/ Return \/ (\E k \in Workers : Worker(k))

Next == Agent \/ Env
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------------------

NoFailure == st.fails = {}

\* a goroutine of the agent can make a step
Busy ==
  \/ \E c \in Conns :
       \/ ln = "serving" /\ rd[c].pc = "none"
       \/ rd[c].pc \in {"put", "end", "close"}
       \/ rd[c].pc = "read" /\ (closed[c] \/ inq[c] # <<>> \/ eof[c])
       \/ rd[c].pc \in {"hlock", "elock"} /\ MayLock(c, "r")
       \/ rd[c].pc \in {"hw1", "hw2", "hw1h", "hw2h", "ew1", "ew2"} /\ CanWrite(c)
       \/ rd[c].pc = "wait" /\ c \notin waitNF
  \/ \E k \in Workers :
       \/ wk[k].pc \in {"get", "handle", "next", "dclose", "release"}
       \/ wk[k].pc = "wait" /\ k \notin waitNE
       \/ wk[k].pc \in {"alock", "dlock"} /\ MayLock(wk[k].c, k)
       \/ wk[k].pc \in {"awrite", "dwrite"} /\ CanWrite(wk[k].c)
  \/ base /\ ln = "serving"
  \/ ln = "closed"

RECURSIVE Seq_(_)
Seq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN << x >> \o Seq_(S \ {x})

QuietEvent ==
  LET run == { wk[k].u : k \in { k \in Workers : wk[k].pc = "run" } }
      dead == { wk[k].u : k \in { k \in Workers : wk[k].pc = "run" /\ Dead(wk[k].c) } }
      wb == { c \in Conns : rd[c].pc \in {"hw1", "hw2", "hw1h", "hw2h", "ew1", "ew2"}
                            \/ \E k \in Workers : wk[k].pc \in {"awrite", "dwrite"} /\ wk[k].c = c }
      part == { c \in Conns : stream[c] # <<>> }
  IN [ e |-> "q", run |-> Seq_(run), dead |-> Seq_(dead), wb |-> Seq_(wb), part |-> Seq_(part), unread |-> <<>>,
       ok |-> TRUE, final |-> FALSE, live |-> 0 ]

QuietOk == Busy \/ Apply(st, QuietEvent).fails = {}

\* what is left of a connection that has ended: nothing, except where one of
\* its handlers still runs
Released ==
  Busy \/
  /\ used \subseteq { rd[c].buf : c \in { c \in Conns : rd[c].pc = "wait" } }
                    \cup { queue[i][2] : i \in DOMAIN queue }
                    \cup { wk[k].buf : k \in { k \in Workers : wk[k].pc # "wait" } }
  /\ \A c \in Conns :
       closed[c] /\ (\A k \in Workers : wk[k].pc # "run")
         => rd[c].pc = "done" /\ lock[c] = "" /\ Dead(c)

\* for the generation of scripts: a behaviour at its end
Script == (~Busy /\ Len(hist) >= 6) => PrintT(<< "SCRIPT", ToJson(hist) >>)
=============================================================================
