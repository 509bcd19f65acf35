------------------------------ MODULE PeersTrace ------------------------------
(* Validates traces recorded from the real peer against PeersContract: one  *)
(* initial state per trace, one transition per event.  No event is ever     *)
(* refused; a broken rule is reported and the rest of the trace is checked. *)
EXTENDS PeersContract, Json, IOUtils

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Traces == TLCGet(1)

VARIABLES tr, i, st
vars == << tr, i, st >>

Init == /\ tr \in DOMAIN Traces
        /\ i = 0
        /\ st = Start

Ev(t, n) == Traces[t].ev[n]

Report(new, n) == \A f \in new : PrintT(<< "FAIL", Traces[tr].id, n, f >>)

Next ==
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET e == Ev(tr, i + 1)
         s == Apply(st, e)
     IN /\ st' = s
        /\ Report(s.fails \ st.fails, i + 1)
        /\ Sane(st, e) \/ PrintT(<< "INSANE", Traces[tr].id, i + 1 >>)
  /\ i' = Len(Traces[tr].ev) => PrintT(<< "DONE", Traces[tr].id, i' >>)

Spec == Init /\ [][Next]_vars
=============================================================================
