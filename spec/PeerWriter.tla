------------------------------ MODULE PeerWriter ------------------------------
(* A model of the sending side of one peer connection (/repo/peers/writer.go,*)
(* protocol.go lockedWrite): senders calling the methods of the writer, the  *)
(* heartbeat and the reader answering synchronisation requests.  They share  *)
(* a lock, a buffered writer, a scratch buffer for marshalling and the next  *)
(* update id.  A call is a sequence of small steps, interleaved with those   *)
(* of all others in every way.  The bytes are real and go to PeersContract.  *)
(*                                                                           *)
(* BUG # "none" replaces one step by a plausible mistake; each must be found.*)
EXTENDS PeersContract, Json, SequencesExt

CONSTANTS
  S,        \* number of senders
  Calls,    \* kinds of calls a sender may make
  MaxCalls, \* per sender
  HB,       \* heartbeats
  SY,       \* synchronisation requests
  Cap,      \* capacity of the buffered writer, in bytes
  Werr,     \* writes may start to fail
  BUG

VARIABLES
  st,
  p,        \* per process: what it still has to do
  lock, buf, berr, scratch, nextId, werr,
  ncall, left, hist

vars == << st, p, lock, buf, berr, scratch, nextId, werr, ncall, left, hist >>
view == << st, p, lock, buf, berr, scratch, nextId, werr, ncall, left >>

Senders == 1..S
Hb == S + 1
Rd == S + 2
Procs == 1..(S + 2)

Idle == [ ops |-> <<>>, call |-> 0, id |-> Zero, res |-> "ok" ]

DefOf(n) == [ id |-> U(n), nm |-> << 97 >>, kt |-> U(2), kl |-> U(4), ts |-> <<>>, ex |-> U(9) ]
EntOf(n, wex) == [ wid |-> TRUE, id |-> Zero, wex |-> wex, ex |-> IF wex THEN U(7) ELSE Zero, key |-> [ n |-> U(n), s |-> <<>> ], data |-> <<>> ]

MDef(n) == [ k |-> "def", d |-> DefOf(n) ]
MSw(n)  == [ k |-> "switch", id |-> U(n) ]
MEnt(n) == [ k |-> "entry", d |-> DefOf(1), u |-> EntOf(n, n % 2 = 0) ]

\* --------------------------------------------------------------------------
\* programs

Do_(o) == [ o |-> o ]
Put_(b) == [ o |-> "put", b |-> b ]
Msg_(m) ==
  LET pl == Payload(m) IN
  << Put_(<< 10, MsgType(m) >>), Put_(EncN(Len(pl))), Put_(pl) >>

\* an entry: its id and the bytes of the message come into being on the way
Ent_(m) ==
  (IF BUG = "idoutside" THEN <<>> ELSE << Do_("id") >>) \o
  (IF BUG = "headfirst" THEN << Put_(<< 10, MsgType(m) >>) >> ELSE <<>>) \o
  << [ o |-> "m1", m |-> m ], [ o |-> "m2", m |-> m ] >> \o
  (IF BUG = "headfirst" THEN <<>> ELSE << Put_(<< 10, MsgType(m) >>) >>) \o
  << Do_("len"), Do_("payload") >>

\* what fails half way through marshalling
BadEnt_(m, how) ==
  (IF BUG = "idoutside" THEN <<>> ELSE << Do_("id") >>) \o
  (IF BUG = "headfirst" THEN << Put_(<< 10, MsgType(m) >>) >> ELSE <<>>) \o
  << [ o |-> "m1", m |-> m ], Do_(how) >>

Lock_ == IF BUG = "nolock" THEN <<>> ELSE << Do_("lock") >>
Unlock_ == IF BUG = "nolock" THEN <<>> ELSE << Do_("unlock") >>
Flush_ == << Do_("flush") >>
PreId_ == IF BUG = "idoutside" THEN << Do_("id") >> ELSE <<>>

Prog(k, n) ==
  CASE k = "def"   -> Lock_ \o Msg_(MDef(n)) \o Unlock_ \o (IF BUG = "noflush" THEN <<>> ELSE Lock_ \o Flush_ \o Unlock_)
    [] k = "sw"    -> (IF BUG = "swnolock" THEN Msg_(MSw(n)) \o Flush_ ELSE Lock_ \o Msg_(MSw(n)) \o Unlock_ \o Lock_ \o Flush_ \o Unlock_)
    [] k = "ent"   -> PreId_ \o Lock_ \o Ent_(MEnt(n)) \o Flush_ \o Unlock_
    [] k = "batch" -> PreId_ \o Lock_ \o Ent_(MEnt(n)) \o Ent_(MEnt(n + 100)) \o Flush_ \o Unlock_
    [] k = "bad"   -> PreId_ \o Lock_ \o BadEnt_(MEnt(n), "err") \o Flush_ \o Unlock_
    [] k = "pan"   -> PreId_ \o Lock_ \o BadEnt_(MEnt(n), "pan") \o Flush_ \o Unlock_
    [] k = "badbatch" -> PreId_ \o Lock_ \o Ent_(MEnt(n)) \o BadEnt_(MEnt(n + 100), "err") \o Flush_ \o Unlock_

MsOf(k, n) ==
  CASE k = "def" -> << MDef(n) >> [] k = "sw" -> << MSw(n) >> [] k = "ent" -> << MEnt(n) >>
    [] k = "batch" -> << MEnt(n), MEnt(n + 100) >>
    [] k = "badbatch" -> << MEnt(n) >>
    [] OTHER -> <<>>
IsBad(k) == k \in {"bad", "pan", "badbatch"}

\* --------------------------------------------------------------------------

E(x) == x @@ [ t |-> 0 ]
RECURSIVE All(_, _)
All(s, es) == IF es = <<>> THEN s ELSE All(Apply(s, E(es[1])), Tail(es))

HelloB == << 72, 32, 50, 10, 114, 10, 108, 32, 49, 32, 50, 10 >>
HelloV == [ proto |-> << 72 >>, ver |-> << 50 >>, remote |-> << 114 >>, peer |-> << 108 >>, pid |-> << 49 >>, rel |-> << 50 >> ]

Init ==
  /\ st = All(Start, << [ e |-> "start", vt |-> FALSE, shared |-> FALSE ], [ e |-> "open", c |-> 1 ], [ e |-> "acc", c |-> 1 ], [ e |-> "src", h |-> 1 ],
                        [ e |-> "in", c |-> 1, b |-> HelloB, z |-> 0 ], [ e |-> "out", c |-> 1, b |-> << 50, 48, 48, 10 >> ],
                        [ e |-> "cb", k |-> "hs", h |-> 1, c |-> 1, x |-> FALSE, hs |-> HelloV ],
                        [ e |-> "cbe", k |-> "hs", h |-> 1, c |-> 1, p |-> FALSE, same |-> TRUE ] >>)
  /\ p = [ x \in Procs |-> Idle ]
  /\ lock = 0 /\ buf = <<>> /\ berr = FALSE /\ scratch = <<>> /\ nextId = Zero /\ werr = FALSE
  /\ ncall = 0
  /\ left = [ x \in Procs |-> IF x = Hb THEN HB ELSE IF x = Rd THEN SY ELSE MaxCalls ]
  /\ hist = <<>>

Begin(x) ==
  /\ p[x].ops = <<>> /\ p[x].call = 0 /\ left[x] > 0
  /\ left' = [ left EXCEPT ![x] = @ - 1 ]
  /\ IF x = Hb
     THEN /\ p' = [ p EXCEPT ![x].ops = IF BUG = "ownbuf" THEN << [ o |-> "raw", b |-> << 0, 4 >> ] >> ELSE Lock_ \o << Put_(<< 0, 4 >>) >> \o Flush_ \o Unlock_ ]
          /\ UNCHANGED << st, ncall, hist >>
     ELSE IF x = Rd
     THEN /\ p' = [ p EXCEPT ![x].ops = Lock_ \o << Put_(<< 0, 2 >>) >> \o Flush_ \o Unlock_ ]
          /\ st' = Apply(st, E([ e |-> "in", c |-> 1, b |-> << 0, 0 >>, z |-> 0 ]))
          /\ hist' = Append(hist, << "sync", 0, "" >>)
          /\ UNCHANGED ncall
     ELSE \E k \in Calls :
          LET n == 10 * x + left[x] IN
          /\ ncall' = ncall + 1
          /\ p' = [ p EXCEPT ![x] = [ Idle EXCEPT !.ops = Prog(k, n), !.call = ncall + 1 ] ]
          /\ st' = Apply(st, E([ e |-> "snd", c |-> 1, s |-> x, call |-> ncall + 1, ms |-> MsOf(k, n), bad |-> IsBad(k) ]))
          /\ hist' = Append(hist, << "call", x, k >>)
  /\ UNCHANGED << lock, buf, berr, scratch, nextId, werr >>

\* bytes reach the connection
Emit(s, b) == IF b = <<>> THEN s ELSE Apply(s, E([ e |-> "out", c |-> 1, b |-> b ]))

\* the rest of the program of a call that fails: it gives the lock back
Abort(x, res) == [ p EXCEPT ![x].ops = IF lock = x /\ ~(BUG = "keeplock" /\ res = "pan") THEN << Do_("unlock") >> ELSE <<>>, ![x].res = res ]

Step(x) ==
  /\ p[x].ops # <<>>
  /\ LET o == p[x].ops[1]
         go == [ p EXCEPT ![x].ops = Tail(@) ]
         Same == UNCHANGED << st, lock, buf, berr, scratch, nextId >>
         Put(b) ==
           IF berr THEN p' = Abort(x, "err") /\ Same
           ELSE IF Len(buf) + Len(b) <= Cap THEN buf' = buf \o b /\ p' = go /\ UNCHANGED << st, lock, berr, scratch, nextId >>
           ELSE IF werr THEN berr' = TRUE /\ p' = Abort(x, "err") /\ UNCHANGED << st, lock, buf, scratch, nextId >>
           ELSE LET a == buf \o b IN
                /\ st' = Emit(st, SubSeq(a, 1, Cap)) /\ buf' = SubSeq(a, Cap + 1, Len(a)) /\ p' = go
                /\ UNCHANGED << lock, berr, scratch, nextId >>
     IN CASE o.o = "lock" -> lock = 0 /\ lock' = x /\ p' = go /\ UNCHANGED << st, buf, berr, scratch, nextId >>
          [] o.o = "unlock" -> lock' = 0 /\ p' = go /\ UNCHANGED << st, buf, berr, scratch, nextId >>
          [] o.o = "id" -> /\ p' = [ go EXCEPT ![x].id = nextId ]
                           /\ nextId' = IF BUG = "sameid" THEN nextId ELSE Inc32(nextId)
                           /\ UNCHANGED << st, lock, buf, berr, scratch >>
          [] o.o = "m1" -> /\ scratch' = Enc32(p[x].id) \o (IF Len(scratch) > 4 THEN SubSeq(scratch, 5, Len(scratch)) ELSE <<>>)
                           /\ p' = go /\ UNCHANGED << st, lock, buf, berr, nextId >>
          [] o.o = "m2" -> /\ scratch' = SubSeq(scratch, 1, 4) \o Payload(o.m)
                           /\ p' = go /\ UNCHANGED << st, lock, buf, berr, nextId >>
          [] o.o = "put" -> Put(o.b)
          [] o.o = "len" -> Put(EncN(Len(scratch)))
          [] o.o = "payload" -> Put(scratch)
          [] o.o = "raw" -> st' = Emit(st, o.b) /\ p' = go /\ UNCHANGED << lock, buf, berr, scratch, nextId >>
          [] o.o = "flush" -> IF berr \/ (werr /\ buf # <<>>) THEN berr' = TRUE /\ p' = Abort(x, "err") /\ UNCHANGED << st, lock, buf, scratch, nextId >>
                              ELSE st' = Emit(st, buf) /\ buf' = <<>> /\ p' = go /\ UNCHANGED << lock, berr, scratch, nextId >>
          [] o.o \in {"err", "pan"} -> p' = Abort(x, o.o) /\ Same
  /\ UNCHANGED << werr, ncall, left, hist >>

Return(x) ==
  /\ p[x].ops = <<>> /\ p[x].call # 0
  /\ st' = Apply(st, E([ e |-> "snt", c |-> 1, s |-> x, call |-> p[x].call, err |-> p[x].res = "err", pan |-> p[x].res = "pan" ]))
  /\ p' = [ p EXCEPT ![x] = Idle ]
  /\ UNCHANGED << lock, buf, berr, scratch, nextId, werr, ncall, left, hist >>

Fail ==
  /\ Werr /\ ~werr /\ werr' = TRUE
  /\ st' = Apply(st, E([ e |-> "werr", c |-> 1 ]))
  /\ hist' = Append(hist, << "werr", 0, "" >>)
  /\ UNCHANGED << p, lock, buf, berr, scratch, nextId, ncall, left >>

Next == (\E x \in Procs : Begin(x) \/ Step(x) \/ Return(x)) \/ Fail
Spec == Init /\ [][Next]_vars

NoFailure == st.fails = {}

Stuck(x) == p[x].ops # <<>> /\ p[x].ops[1].o = "lock" /\ lock # 0
Busy == \E x \in Procs : (p[x].ops # <<>> /\ ~Stuck(x)) \/ (p[x].ops = <<>> /\ p[x].call # 0)

QuietOk == Busy \/ Apply(st, E([ e |-> "q", ok |-> TRUE, wb |-> <<>>, dead |-> <<>>, held |-> 0, final |-> FALSE ])).fails = {}

Script == (~Busy /\ Len(hist) >= 4) => PrintT(<< "SCRIPT", ToJson(hist) >>)
=============================================================================
