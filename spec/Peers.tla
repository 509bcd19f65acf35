-------------------------------- MODULE Peers --------------------------------
(* A model of the peer of /repo/peers, shaped like the code: the serve loop  *)
(* (peers.go Serve), and per connection a reader (protocol.go Serve) that    *)
(* waits for the hello, writes the status, calls the handler and then takes  *)
(* message after message; a heartbeat goroutine with its ticker; the         *)
(* goroutine of the inactivity timer; the context and what waits for it; and *)
(* the deferred calls at the end of a connection.  Time is discrete and      *)
(* passes only when nothing else can happen (what the virtual clock of the   *)
(* harness does as well).  Single writes are one step here, PeerWriter.tla   *)
(* is about what happens between the senders of a connection.                *)
(*                                                                           *)
(* What HAProxy sends are real bytes (Wire.tla), which the contract takes    *)
(* apart on its own; the model knows what they mean.                         *)
(*                                                                           *)
(* BUG # "none" replaces one step by a plausible mistake; each must be found.*)
EXTENDS PeersContract, Json, SequencesExt

CONSTANTS
  Conns,     \* set of connection numbers
  Kinds,     \* kinds of messages HAProxy may send after the hello
  Hellos,    \* what it may send first
  MaxSend,   \* messages per connection, the hello included
  MaxT,      \* seconds of time
  Faults,    \* subset of {"eof", "werr", "cancel", "panic", "half", "serve"}
  Shared,    \* one handler for all connections
  Block,     \* callbacks may take time
  Calm,      \* the environment waits until the code has nothing left to do
  BUG

VARIABLES
  st,        \* the contract
  m,         \* per connection: the state of the code and of the network
  now,       \* ms
  ctr,       \* updates sent so far
  nh,        \* handler instances so far
  base, ln,  \* base context cancelled; state of the serve loop
  tables,    \* only used with BUG = "sharedtables"
  hist

vars == << st, m, now, ctr, nh, base, ln, tables, hist >>
view == << st, m, now, ctr, nh, base, ln, tables >>

\* --------------------------------------------------------------------------
\* messages

HelloB == << 72, 32, 50, 10, 114, 10, 108, 32, 49, 32, 50, 10 >>       \* "H 2", "r", "l 1 2"
BadHelloB == << 72, 32, 50, 10, 114, 10, 108, 32, 120, 32, 50, 10 >>   \* "l x 2"
HelloV == [ proto |-> << 72 >>, ver |-> << 50 >>, remote |-> << 114 >>, peer |-> << 108 >>, pid |-> << 49 >>, rel |-> << 50 >> ]

UIntType == << [ t |-> 2, c |-> Zero, p |-> Zero ] >>
Def(i) == CASE i = 1 -> [ id |-> U(1), nm |-> << 97 >>, kt |-> U(2), kl |-> U(4), ts |-> UIntType, ex |-> U(60) ]
            [] i = 2 -> [ id |-> U(2), nm |-> << 98 >>, kt |-> U(6), kl |-> U(9), ts |-> <<>>, ex |-> U(60) ]
            \* table 1, defined again
            [] i = 3 -> [ id |-> U(1), nm |-> << 97 >>, kt |-> U(6), kl |-> U(9), ts |-> UIntType, ex |-> U(60) ]

IdOf(k, n) == IF k = "max" THEN << 65535, 65535, 0, 0 >> ELSE U(100 * n)
\* the n-th update: of table definition i
Upd(k, i, n) ==
  LET d == Def(i)
      wid == k \in {"uid", "max", "tim"}
      wex == k \in {"tim", "inct"}
  IN [ wid |-> wid, id |-> IF wid THEN IdOf(k, n) ELSE Zero, wex |-> wex, ex |-> IF wex THEN U(n) ELSE Zero,
       key |-> IF d.kt = U(2) THEN [ n |-> U(n), s |-> <<>> ] ELSE [ n |-> Zero, s |-> << 48 + n >> ],
       data |-> IF d.ts = <<>> THEN <<>> ELSE << [ n |-> U(n), p |-> Zero, q |-> Zero, s |-> <<>> ] >> ]
UpdType(k) == CASE k \in {"uid", "max"} -> 128 [] k = "inc" -> 129 [] k = "tim" -> 133 [] k = "inct" -> 134
UpdKinds == {"uid", "max", "inc", "tim", "inct"}

Frame(cls, ty, p) == << cls, ty >> \o (IF ty >= 128 THEN EncBytes(p) ELSE <<>>)

\* an update is encoded for the table HAProxy selected last
Bytes(k, i, n) ==
  CASE k = "hello" -> HelloB [] k = "badhello" -> BadHelloB
    [] k = "def1" -> Frame(10, 130, EncDef(Def(1))) [] k = "def2" -> Frame(10, 130, EncDef(Def(2))) [] k = "def3" -> Frame(10, 130, EncDef(Def(3)))
    [] k = "sw1" -> Frame(10, 131, Enc(U(1))) [] k = "sw2" -> Frame(10, 131, Enc(U(2)))
    [] k \in UpdKinds -> Frame(10, UpdType(k), EncEntry(Def(i), Upd(k, i, n)))
    [] k = "ack" -> Frame(10, 132, << 1, 0, 0, 0, 1 >>)
    [] k = "hb" -> Frame(0, 4, <<>>) [] k = "sync" -> Frame(0, 0, <<>>) [] k = "fin" -> Frame(0, 1, <<>>)
    [] k = "class" -> Frame(3, 0, <<>>)
    [] k = "trunc" -> Frame(10, 128, << 0, 0 >>)
    [] k = "perr" -> Frame(1, 0, <<>>)

\* --------------------------------------------------------------------------

M0 == [ open |-> FALSE, inq |-> <<>>, half |-> <<>>, sent |-> 0, eof |-> FALSE, werr |-> FALSE,
        esel |-> 1, edef |-> [ i \in {} |-> 0 ],      \* what HAProxy selected and defined
        pc |-> "none", ctx |-> FALSE, closed |-> FALSE, h |-> 0, hsn |-> 0,
        hb |-> -1, lm |-> -1, hbrun |-> FALSE, lmrun |-> FALSE,
        sel |-> 0, defs |-> [ i \in {} |-> 0 ],
        last |-> [ set |-> FALSE ], u |-> 0 ]

Init ==
  /\ st = Apply(Start, [ e |-> "start", vt |-> TRUE, shared |-> Shared, t |-> 0 ])
  /\ m = [ c \in Conns |-> M0 ]
  /\ now = 0 /\ ctr = 0 /\ nh = 0 /\ base = FALSE /\ ln = "serving"
  /\ tables = [ i \in {} |-> 0 ]
  /\ hist = <<>>

Dead(c) == m[c].ctx \/ base
E(x) == x @@ [ t |-> now ]
Do(x) == st' = Apply(st, E(x))

\* --------------------------------------------------------------------------
\* the environment

Open(c) ==
  /\ ~m[c].open /\ \A o \in Conns : o < c => m[o].open
  /\ m' = [ m EXCEPT ![c].open = TRUE ]
  /\ Do([ e |-> "open", c |-> c ])
  /\ hist' = Append(hist, << "open", c, "" >>)
  /\ UNCHANGED << now, ctr, nh, base, ln, tables >>

Send(c) ==
  LET k == m[c] IN
  /\ k.open /\ ~k.eof /\ k.sent < MaxSend /\ k.half = <<>>
  /\ \E x \in (IF k.sent = 0 THEN Hellos ELSE Kinds) :
     \E cut \in IF "half" \in Faults THEN BOOLEAN ELSE {FALSE} :
       LET n == ctr + 1
           i == k.esel
           b == Bytes(x, i, n)
           unit == [ k |-> x, i |-> i, n |-> n ]
           set(j) == [ edef |-> (IF j = 2 THEN 2 ELSE 1) :> j, sel |-> j ]
           ed == CASE x = "def1" -> (1 :> 1) @@ k.edef [] x = "def2" -> (2 :> 2) @@ k.edef [] x = "def3" -> (1 :> 3) @@ k.edef [] OTHER -> k.edef
           es == CASE x = "def1" -> 1 [] x = "def2" -> 2 [] x = "def3" -> 3
                   [] x = "sw1" /\ 1 \in DOMAIN ed -> ed[1] [] x = "sw2" /\ 2 \in DOMAIN ed -> ed[2] [] OTHER -> i
           k1 == [ k EXCEPT !.sent = @ + 1, !.edef = ed, !.esel = es ]
       IN /\ ctr' = IF x \in UpdKinds THEN n ELSE ctr
          /\ cut => Len(b) > 2
          /\ IF cut
             THEN /\ m' = [ m EXCEPT ![c] = [ k1 EXCEPT !.half = << unit >> ] ]
                  /\ Do([ e |-> "in", c |-> c, b |-> SubSeq(b, 1, 2), z |-> 0 ])
             ELSE /\ m' = [ m EXCEPT ![c] = [ k1 EXCEPT !.inq = Append(@, unit) ] ]
                  /\ Do([ e |-> "in", c |-> c, b |-> b, z |-> 0 ])
          /\ hist' = Append(hist, << IF cut THEN "half" ELSE "send", c, x >>)
  /\ UNCHANGED << now, nh, base, ln, tables >>

SendRest(c) ==
  LET k == m[c] IN
  /\ k.half # <<>> /\ ~k.eof
  /\ LET u == k.half[1]
         b == Bytes(u.k, u.i, u.n)
     IN /\ m' = [ m EXCEPT ![c].half = <<>>, ![c].inq = Append(@, u) ]
        /\ Do([ e |-> "in", c |-> c, b |-> SubSeq(b, 3, Len(b)), z |-> 0 ])
  /\ hist' = Append(hist, << "rest", c, "" >>)
  /\ UNCHANGED << now, ctr, nh, base, ln, tables >>

Eof(c) ==
  /\ "eof" \in Faults /\ m[c].open /\ ~m[c].eof
  /\ m' = [ m EXCEPT ![c].eof = TRUE ]
  /\ Do([ e |-> "eof", c |-> c ])
  /\ hist' = Append(hist, << "eof", c, "" >>)
  /\ UNCHANGED << now, ctr, nh, base, ln, tables >>

Werr(c) ==
  /\ "werr" \in Faults /\ m[c].open /\ ~m[c].werr
  /\ m' = [ m EXCEPT ![c].werr = TRUE ]
  /\ Do([ e |-> "werr", c |-> c ])
  /\ hist' = Append(hist, << "werr", c, "" >>)
  /\ UNCHANGED << now, ctr, nh, base, ln, tables >>

Cancel ==
  /\ "cancel" \in Faults /\ ~base
  /\ base' = TRUE
  /\ Do([ e |-> "cancel" ])
  /\ hist' = Append(hist, << "cancel", 0, "" >>)
  /\ UNCHANGED << m, now, ctr, nh, ln, tables >>

\* a callback returns or panics
Cbe(c, k, p) == [ e |-> "cbe", k |-> k, h |-> m[c].h, c |-> IF k = "close" /\ (Shared \/ m[c].hsn = 0) THEN 0 ELSE c, p |-> p, same |-> TRUE ]

Finish(c) ==
  /\ m[c].pc \in {"hs", "cb", "closing"}
  /\ \E p \in {FALSE} \cup (IF "panic" \in Faults THEN {TRUE} ELSE {}) :
       LET k == m[c].pc IN
       /\ Do(Cbe(c, CASE k = "hs" -> "hs" [] k = "cb" -> "up" [] k = "closing" -> "close", p))
       /\ m' = CASE k = "closing" -> [ m EXCEPT ![c].pc = "sock" ]
                 [] p /\ BUG = "nopanicguard" -> [ m EXCEPT ![c].pc = "gone" ]
                 [] p -> [ m EXCEPT ![c].pc = "end" ]
                 [] k = "hs" -> [ m EXCEPT ![c].pc = "loop", ![c].lm = IF BUG = "notimeout" THEN -1 ELSE now + 5000, ![c].lmrun = BUG # "notimeout" ]
                 [] OTHER -> [ m EXCEPT ![c].pc = "loop" ]
       /\ hist' = Append(hist, << "finish", c, IF p THEN "panic" ELSE "ok" >>)
  /\ UNCHANGED << now, ctr, nh, base, ln, tables >>

\* --------------------------------------------------------------------------
\* the serve loop

Accept(c) ==
  /\ m[c].open /\ m[c].pc = "none" /\ ln = "serving"
  /\ \A o \in Conns : o < c => m[o].pc # "none"
  /\ nh' = IF Shared THEN nh ELSE nh + 1
  /\ m' = [ m EXCEPT ![c].pc = "hello", ![c].h = nh' ]
  /\ st' = LET s == Apply(st, E([ e |-> "acc", c |-> c ])) IN IF Shared THEN s ELSE Apply(s, E([ e |-> "src", h |-> nh' ]))
  /\ UNCHANGED << now, ctr, base, ln, tables, hist >>

CloseListener ==
  /\ base /\ ln = "serving" /\ ln' = "closed"
  /\ Do([ e |-> "lclosed" ])
  /\ UNCHANGED << m, now, ctr, nh, base, tables, hist >>

\* the program closes its listener itself, and serves another one later
LFail ==
  /\ "serve" \in Faults /\ ln = "serving" /\ ~base
  /\ ln' = "closed"
  /\ Do([ e |-> "lfail" ])
  /\ hist' = Append(hist, << "lfail", 0, "" >>)
  /\ UNCHANGED << m, now, ctr, nh, base, tables >>

Serve ==
  /\ "serve" \in Faults /\ ln = "returned" /\ ~base
  /\ ln' = IF BUG = "serveonce" THEN "closed" ELSE "serving"
  /\ Do([ e |-> "serve" ])
  /\ hist' = Append(hist, << "serve", 0, "" >>)
  /\ UNCHANGED << m, now, ctr, nh, base, tables >>

Return ==
  /\ ln = "closed" /\ ln' = "returned"
  /\ Do([ e |-> "ret", err |-> TRUE ])
  /\ UNCHANGED << m, now, ctr, nh, base, tables, hist >>

\* --------------------------------------------------------------------------
\* reader

Keep == UNCHANGED << now, ctr, nh, base, ln, hist >>

Ready(c) == m[c].inq # <<>> \/ m[c].eof \/ m[c].closed

ReadHello(c) ==
  /\ m[c].pc = "hello" /\ Ready(c)
  /\ LET k == m[c]
         bad == k.closed \/ k.inq = <<>> \/ k.inq[1].k # "hello"
     IN IF bad /\ ~(BUG = "badhello" /\ ~k.closed /\ k.inq # <<>>) THEN m' = [ m EXCEPT ![c].pc = "end" ]
        ELSE m' = [ m EXCEPT ![c].inq = Tail(@), ![c].pc = IF BUG = "statuslate" THEN "callhs" ELSE "status" ]
  /\ UNCHANGED << st, tables >> /\ Keep

Fails(c) == m[c].closed \/ m[c].werr

Status(c) ==
  /\ m[c].pc = "status"
  /\ IF Fails(c) THEN m' = [ m EXCEPT ![c].pc = "end" ] /\ UNCHANGED st
     ELSE /\ m' = [ m EXCEPT ![c].pc = "callhs", ![c].hbrun = BUG \notin {"nohb", "hblate"}, ![c].hb = now + IF BUG = "slowhb" THEN 4000 ELSE 3000 ]
          /\ Do([ e |-> "out", c |-> c, b |-> << 50, 48, 48, 10 >> ])
  /\ UNCHANGED tables /\ Keep

CallHs(c) ==
  /\ m[c].pc = "callhs"
  /\ Do([ e |-> "cb", k |-> "hs", h |-> m[c].h, c |-> c, x |-> Dead(c), hs |-> HelloV ])
  /\ m' = [ m EXCEPT ![c].pc = "hs", ![c].hsn = 1 ]
  /\ UNCHANGED tables /\ Keep

\* BUG "hblate": the ticker starts with the first message
Tables(c) == IF BUG = "sharedtables" THEN tables ELSE m[c].defs
Tab(x) == IF x \in {"def2", "sw2"} THEN 2 ELSE 1

Next1(c) ==
  /\ m[c].pc = "loop" /\ Ready(c)
  /\ LET k == m[c] IN
     IF k.closed \/ k.inq = <<>> \/ Dead(c)
     THEN m' = [ m EXCEPT ![c].pc = "end" ] /\ UNCHANGED << st, tables >>
     ELSE
     LET x == k.inq[1]
         k0 == [ k EXCEPT !.inq = Tail(@), !.lm = IF BUG = "timeronce" \/ (BUG = "updonly" /\ x.k \notin UpdKinds) THEN @ ELSE now + 5000,
                          !.hb = IF BUG = "hbreset" /\ x.k \in UpdKinds THEN now + 3000 ELSE @ ]
         end == [ k0 EXCEPT !.pc = "end" ]
         d == CASE x.k = "def1" -> 1 [] x.k = "def2" -> 2 [] x.k = "def3" -> 3 [] OTHER -> 0
     IN CASE x.k \in {"def1", "def2", "def3"} ->
               /\ m' = [ m EXCEPT ![c] = [ k0 EXCEPT !.sel = d,
                                            !.defs = IF BUG = "firstdef" THEN @ @@ (Tab(x.k) :> d) ELSE (Tab(x.k) :> d) @@ @ ] ]
               /\ tables' = IF BUG = "sharedtables" THEN (Tab(x.k) :> d) @@ tables ELSE tables
               /\ UNCHANGED st
          [] x.k \in {"sw1", "sw2"} ->
               /\ m' = [ m EXCEPT ![c] = IF Tab(x.k) \notin DOMAIN Tables(c) THEN end
                                         ELSE IF BUG = "noswitch" THEN k0
                                         ELSE [ k0 EXCEPT !.sel = Tables(c)[Tab(x.k)] ] ]
               /\ UNCHANGED << st, tables >>
          [] x.k \in UpdKinds ->
               IF k.sel = 0 THEN m' = [ m EXCEPT ![c] = end ] /\ UNCHANGED << st, tables >>
               ELSE LET \* decoded with the selected table: the bytes are those of table x.i
                        b == EncEntry(Def(x.i), Upd(x.k, x.i, x.n))
                        wid == x.k \in {"uid", "max", "tim"}
                        wex == x.k \in {"tim", "inct"}
                        r == DecEntry(Def(k.sel), wid, wex, Zero, b)
                        id == IF wid THEN r.e.id ELSE IF k.last.set THEN Inc32(k.last.v) ELSE Zero
                        u == [ r.e EXCEPT !.id = id ]
                    IN IF ~r.ok THEN m' = [ m EXCEPT ![c] = end ] /\ UNCHANGED << st, tables >>
                       ELSE /\ m' = [ m EXCEPT ![c] = [ k0 EXCEPT !.pc = "cb",
                                                        !.last = IF BUG = "noid" /\ ~wid THEN @ ELSE [ set |-> TRUE, v |-> id ] ] ]
                            /\ Do([ e |-> "cb", k |-> "up", h |-> k.h, c |-> c, x |-> Dead(c), d |-> Def(k.sel), u |-> u ])
                            /\ UNCHANGED tables
          [] x.k = "sync" ->
               /\ m' = [ m EXCEPT ![c] = k0 ]
               /\ IF Fails(c) \/ BUG = "nosync" THEN UNCHANGED st ELSE Do([ e |-> "out", c |-> c, b |-> << 0, 2 >> ])
               /\ UNCHANGED tables
          [] x.k \in {"hb", "fin", "ack"} ->
               /\ m' = [ m EXCEPT ![c] = k0 ]
               /\ IF BUG = "syncall" /\ x.k = "fin" /\ ~Fails(c) THEN Do([ e |-> "out", c |-> c, b |-> << 0, 2 >> ]) ELSE UNCHANGED st
               /\ UNCHANGED tables
          [] OTHER -> m' = [ m EXCEPT ![c] = end ] /\ UNCHANGED << st, tables >>
  /\ Keep

\* the deferred calls: cancel the context, Close of the handler, the socket
End(c) ==
  /\ m[c].pc = "end"
  /\ IF BUG = "noclosebad" /\ m[c].hsn = 0
     THEN m' = [ m EXCEPT ![c].ctx = TRUE, ![c].pc = "sock" ] /\ UNCHANGED st
     ELSE /\ m' = [ m EXCEPT ![c].ctx = BUG # "latecancel", ![c].pc = "closing" ]
          /\ st' = Apply(st, E([ e |-> "cb", k |-> "close", h |-> m[c].h, c |-> IF Shared \/ m[c].hsn = 0 THEN 0 ELSE c,
                                 known |-> ~Shared /\ m[c].hsn > 0, x |-> ~Shared /\ m[c].hsn > 0 /\ (BUG # "latecancel" \/ Dead(c)) ]))
  /\ UNCHANGED tables /\ Keep

SockClosed(c) == IF m[c].closed THEN st ELSE Apply(st, E([ e |-> "closed", c |-> c ]))

EndSock(c) ==
  /\ m[c].pc = "sock"
  /\ m' = [ m EXCEPT ![c].pc = "done", ![c].closed = TRUE, ![c].ctx = TRUE ]
  /\ st' = SockClosed(c)
  /\ UNCHANGED tables /\ Keep

\* --------------------------------------------------------------------------
\* the other goroutines

Shut(c) ==
  /\ m' = [ m EXCEPT ![c].ctx = TRUE, ![c].closed = TRUE, ![c].lm = -1, ![c].lmrun = FALSE ]
  /\ IF BUG = "closetwice" /\ ~m[c].closed
     THEN st' = Apply(SockClosed(c), E([ e |-> "cb", k |-> "close", h |-> m[c].h, c |-> IF Shared THEN 0 ELSE c, known |-> ~Shared, x |-> ~Shared ]))
     ELSE st' = SockClosed(c)

HbDue(c) == m[c].hbrun /\ ((Dead(c) /\ BUG # "timerleak") \/ now >= m[c].hb)
Heartbeat(c) ==
  /\ HbDue(c)
  /\ IF Dead(c) THEN m' = [ m EXCEPT ![c].hbrun = FALSE ] /\ UNCHANGED st
     ELSE IF Fails(c) THEN
       /\ m' = [ m EXCEPT ![c].hbrun = FALSE, ![c].ctx = TRUE, ![c].closed = TRUE ]
       /\ st' = SockClosed(c)
     ELSE /\ m' = [ m EXCEPT ![c].hb = @ + 3000 ]
          /\ Do([ e |-> "out", c |-> c, b |-> << 0, 4 >> ])
  /\ UNCHANGED tables /\ Keep

LmDue(c) == m[c].lmrun /\ (Dead(c) \/ now >= m[c].lm)
LastMessage(c) == LmDue(c) /\ Shut(c) /\ UNCHANGED tables /\ Keep

\* a connection without a handshake, or with one being handled
AfterDue(c) == base /\ m[c].pc \in {"hello", "status", "callhs", "hs", "loop", "cb"} /\ ~m[c].closed /\ BUG # "hellowait"
After(c) == AfterDue(c) /\ Shut(c) /\ UNCHANGED tables /\ Keep

CtxEarly(c) ==   \* a mistake
  /\ BUG = "ctxearly" /\ m[c].pc = "loop" /\ m[c].half # <<>> /\ ~m[c].ctx
  /\ m' = [ m EXCEPT ![c].ctx = TRUE, ![c].lmrun = FALSE, ![c].hbrun = FALSE ]
  /\ UNCHANGED << st, tables >> /\ Keep

Code == (\E c \in Conns : Accept(c) \/ ReadHello(c) \/ Status(c) \/ CallHs(c) \/ Next1(c) \/ End(c) \/ EndSock(c)
                          \/ Heartbeat(c) \/ LastMessage(c) \/ After(c) \/ CtxEarly(c))
        \/ CloseListener \/ Return

Busy ==
  \/ \E c \in Conns : LET k == m[c] IN
       \/ k.open /\ k.pc = "none" /\ ln = "serving"
       \/ k.pc \in {"hello", "loop"} /\ Ready(c)
       \/ k.pc \in {"status", "callhs", "end", "sock"}
       \/ HbDue(c) \/ LmDue(c) \/ AfterDue(c)
  \/ base /\ ln = "serving"
  \/ ln = "closed"

\* time passes when nothing else happens, and callbacks return if they have to
Advance ==
  /\ ~Busy /\ now < MaxT * 1000
  /\ \E c \in Conns : m[c].open
  /\ Block \/ \A c \in Conns : m[c].pc \notin {"hs", "cb", "closing"}
  /\ now' = now + 1000
  /\ st' = Apply(st, [ e |-> "tick", t |-> now' ])
  /\ hist' = IF hist # <<>> /\ hist[Len(hist)][1] = "sleep"
             THEN Append(SubSeq(hist, 1, Len(hist) - 1), << "sleep", hist[Len(hist)][2] + 1000, "" >>)
             ELSE Append(hist, << "sleep", 1000, "" >>)
  /\ UNCHANGED << m, ctr, nh, base, ln, tables >>

Env == (~Calm \/ ~Busy) /\ ((\E c \in Conns : Open(c) \/ Send(c) \/ SendRest(c) \/ Eof(c) \/ Werr(c) \/ Finish(c)) \/ Cancel \/ LFail \/ Serve \/ Advance)

Next == Code \/ Env
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------------------

NoFailure == st.fails = {}

QuietEvent ==
  LET dead == { c \in Conns : m[c].hsn > 0 /\ Dead(c) } IN
  E([ e |-> "q", ok |-> TRUE, wb |-> <<>>, held |-> 0, final |-> FALSE,
      dead |-> SetToSeq(dead) ])

\* what is left of a connection that has ended: nothing
Released ==
  Busy \/ \A c \in Conns :
    /\ m[c].pc = "done" => m[c].closed /\ m[c].ctx /\ ~m[c].hbrun /\ ~m[c].lmrun
    /\ m[c].closed => m[c].pc \in {"done", "hs", "cb", "closing"}

QuietOk == Busy \/ Apply(st, QuietEvent).fails = {}

\* for the generation of scripts: a behaviour at its end
Script == (~Busy /\ Len(hist) >= 6) => PrintT(<< "SCRIPT", ToJson(hist) >>)
=============================================================================
