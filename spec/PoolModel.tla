---------------------------- MODULE PoolModel ----------------------------
(* How a request comes to be answered: a connection gets a thread of tiny_http's pool, which reads the head of the request   *)
(* and hands it over; a worker of the server reads the body and answers.  Clients may stop within the head (they hold a      *)
(* thread of the pool for ever) or within the body (they hold a worker).                                                     *)
(*                                                                                                                           *)
(* The pool starts a thread for a connection only if none waits, and a thread that has been woken but does not run yet still *)
(* counts as waiting.  A connection that comes in between is left in the queue until a thread becomes free or the next        *)
(* connection comes (control f1: it may stay there for ever).  This is tiny_http's and not monolith's to repair, so the       *)
(* recorder opens one more connection (`Nudge`) before it takes a request for unanswered.                                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Goods, Bads, Heads, Bodies,   \* connections: with a request, with one that cannot be decoded, that stop in the head, in the body
          Min,                          \* threads the pool always keeps
          Workers,
          Nudges,                       \* may further connections come?
          Mistake                       \* "none", "dies": a request that cannot be decoded ends the worker, "serial": one at a time
Conns == Goods \cup Bads \cup Heads \cup Bodies
Slots == 1..(Min + Cardinality(Conns) + 1)
VARIABLES todo,     \* connections without a thread
          thr,      \* "none", "idle", "woken", or the connection a thread serves
          came, req, wrk, done
vars == <<todo, thr, came, req, wrk, done>>
Nudge == "nudge"

Waiting == Cardinality({t \in Slots : thr[t] \in {"idle", "woken"}})
Active == Cardinality({t \in Slots : thr[t] # "none"})
Init == /\ todo = <<>> /\ thr = [t \in Slots |-> IF t <= Min THEN "idle" ELSE "none"]
        /\ came = {} /\ req = <<>> /\ wrk = [w \in 1..Workers |-> "free"] /\ done = {}

Spawn(c) ==
    IF Waiting = 0
    THEN /\ LET t == CHOOSE t \in Slots : thr[t] = "none" IN thr' = [thr EXCEPT ![t] = c]
         /\ UNCHANGED todo
    ELSE /\ todo' = Append(todo, c)
         /\ IF \E t \in Slots : thr[t] = "idle"
            THEN LET t == CHOOSE t \in Slots : thr[t] = "idle" IN thr' = [thr EXCEPT ![t] = "woken"]
            ELSE UNCHANGED thr
Come(c) == c \notin came /\ came' = came \cup {c} /\ Spawn(c) /\ UNCHANGED <<req, wrk, done>>
\* only after a while: whatever was woken runs by then
Another == /\ Nudges /\ (\A t \in Slots : thr[t] # "woken") /\ ((Goods \cup Bads) \cap came) \ done # {}
           /\ \A t \in Slots : thr[t] # Nudge
           /\ \A k \in 1..Len(todo) : todo[k] # Nudge
           /\ Spawn(Nudge) /\ UNCHANGED <<came, req, wrk, done>>

Next1(t) == IF todo = <<>> THEN thr' = [thr EXCEPT ![t] = "idle"] /\ UNCHANGED todo
            ELSE thr' = [thr EXCEPT ![t] = Head(todo)] /\ todo' = Tail(todo)
Wake(t) == thr[t] = "woken" /\ Next1(t) /\ UNCHANGED <<came, req, wrk, done>>
\* threads beyond the least number end after a while without work
Expire(t) == /\ thr[t] = "idle" /\ Active > Min
             /\ IF todo = <<>> THEN thr' = [thr EXCEPT ![t] = "none"] /\ UNCHANGED todo ELSE Next1(t)
             /\ UNCHANGED <<came, req, wrk, done>>
Handed(c) == c \in done \/ (\E k \in 1..Len(req) : req[k] = c) \/ \E w \in 1..Workers : wrk[w] = c
Hand(t) == /\ thr[t] \in Conns \ Heads /\ ~Handed(thr[t])
           /\ req' = Append(req, thr[t]) /\ UNCHANGED <<todo, thr, came, wrk, done>>
Leave(t) == (thr[t] = Nudge \/ thr[t] \in done) /\ Next1(t) /\ UNCHANGED <<came, req, wrk, done>>

Take(w) == /\ wrk[w] = "free" /\ req # <<>>
           /\ (Mistake = "serial" => \A v \in 1..Workers : wrk[v] = "free")
           /\ wrk' = [wrk EXCEPT ![w] = Head(req)] /\ req' = Tail(req) /\ UNCHANGED <<todo, thr, came, done>>
Answer(w) == /\ wrk[w] \in Goods \cup Bads
             /\ done' = done \cup {wrk[w]}
             /\ wrk' = [wrk EXCEPT ![w] = IF Mistake = "dies" /\ wrk[w] \in Bads THEN "dead" ELSE "free"]
             /\ UNCHANGED <<todo, thr, came, req>>

Next == (\E c \in Conns : Come(c)) \/ Another \/ (\E t \in Slots : Wake(t) \/ Expire(t) \/ Hand(t) \/ Leave(t))
        \/ (\E w \in 1..Workers : Take(w) \/ Answer(w))
Fair == /\ WF_vars(Another)
        /\ \A t \in Slots : WF_vars(Wake(t)) /\ WF_vars(Hand(t)) /\ WF_vars(Leave(t)) /\ SF_vars(Expire(t))
        /\ \A w \in 1..Workers : WF_vars(Take(w)) /\ WF_vars(Answer(w))
Spec == Init /\ [][Next]_vars /\ Fair

\* with fewer clients that stop in a body than there are workers, every request is answered
Served == \A c \in Goods \cup Bads : c \in came ~> c \in done
\* nobody is answered twice, or without having come; no connection is in two places
Places(c) == Cardinality({t \in Slots : thr[t] = c}) + Cardinality({k \in 1..Len(todo) : todo[k] = c})
Once == \A c \in Conns : Places(c) <= 1 /\ (Places(c) = 1 => c \in came)
            /\ Cardinality({w \in 1..Workers : wrk[w] = c}) + Cardinality({k \in 1..Len(req) : req[k] = c}) <= 1
=============================================================================
