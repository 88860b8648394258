----------------------------- MODULE ChunkImpl -----------------------------
(* One chunk, access by access: a write looks up the id of its label set, creates the entries of the index one by one if  *)
(* there is none (id -> labels, every pair -> ids, last labels -> id), reads the stored series and writes it back.  Every  *)
(* access may fail, before or after it took effect, and the process may die before any of them; an embedded store then     *)
(* keeps some prefix of what it was given since it was flushed, each store its own.                                       *)
(* Checked: a write that is reported as done can be found (Found), nothing that was found before is lost or changed by a    *)
(* failure, and nothing appears that was not written (Intact); a series has one id with data (One); a write during which   *)
(* nothing fails is not refused, whatever failed before (Again); after a death each series is as it was after one of its   *)
(* writes, not before the last flush (Prefix).  `Mistake` names orders of the accesses that break this (negative controls). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, CSV, Json

CONSTANTS Store, Index,        \* kinds: "sled" (embedded), "tikv" (shared, ordered)
          Times, MaxOps, MaxFaults,
          Mistake,             \* "none", "link first", "ignore", "no link", "blind"
          GenFile, GenDepth

A == <<"a", "x">>
B == <<"b", "y">>
Sets == {{A}, {A, B}}
Matchers == {{A}, {B}, {A, B}}

VARIABLES
    ix, st,      \* the stores: ix = [meta, rev, link], st: id -> (time -> value)
    ixs, sts,    \* what the stores were since they were flushed, oldest first; the last one is how they are now
    next,        \* next id
    op,          \* the write in progress
    seen,        \* label set -> what its series was: a sequence, of which the first one is known to be on disk
    need, may,   \* label set -> time -> values that have to / can be read there
    alive, ops, faults, last, hist
vars == <<ix, st, ixs, sts, next, op, seen, need, may, alive, ops, faults, last, hist>>
view == <<ix, st, ixs, sts, next, [op EXCEPT !.n = 0, !.plan = <<>>], seen, need, may, alive, ops, faults, last>>

Nothing == [pc |-> "idle", ls |-> {}, t |-> 0, v |-> 0, id |-> 0, left |-> <<>>, list |-> <<>>, got |-> FALSE, old |-> <<>>, refused |-> FALSE, failed |-> FALSE, must |-> FALSE,
            n |-> 0, plan |-> <<>>]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Set(f, x, y) == (x :> y) @@ f
Order(ls) == IF ls = {A} THEN <<A>> ELSE <<A, B>>
Log(e) == IF GenFile = "" THEN UNCHANGED hist ELSE hist' = Append(hist, e)
MaxTime(s) == CHOOSE x \in DOMAIN s \cup {0} : \A y \in DOMAIN s : y <= x

Init ==
    /\ ix = [meta |-> <<>>, rev |-> <<>>, link |-> <<>>] /\ st = <<>> /\ ixs = <<ix>> /\ sts = <<st>>
    /\ next = 1 /\ op = Nothing /\ seen = [ls \in Sets |-> << <<>> >>]
    /\ need = [ls \in Sets |-> <<>>] /\ may = [ls \in Sets |-> <<>>]
    /\ alive = TRUE /\ ops = 0 /\ faults = 0 /\ last = "ok" /\ hist = <<>>

-----------------------------------------------------------------------------
(* what a query finds: for the ids in all the lists, those that have labels, and samples *)
IdsOf(m) == {id \in DOMAIN ix.meta : \A p \in m : \E k \in 1..Len(At(ix.rev, p, <<>>)) : ix.rev[p][k] = id}
Rows(m) == {<<id, ix.meta[id], st[id]>> : id \in {x \in IdsOf(m) : x \in DOMAIN st}}
Shown(m, ls) == LET r == {x \in Rows(m) : x[2] = ls} IN IF r = {} THEN <<>> ELSE (CHOOSE x \in r : TRUE)[3]

-----------------------------------------------------------------------------
Begin(ls, t) ==
    /\ alive /\ op.pc = "idle" /\ ops < MaxOps
    /\ ops' = ops + 1
    /\ op' = [Nothing EXCEPT !.pc = "find", !.ls = ls, !.t = t, !.v = ops + 1,
                             !.must = (Store = "sled" \/ \A x \in DOMAIN may[ls] : x < t)]
    /\ UNCHANGED <<ix, st, ixs, sts, next, seen, need, may, alive, faults, last, hist>>

\* the access succeeds, or fails without or with effect
Rare(k) == GenFile = "" \/ RandomElement(1..k) = 1     \* generated behaviours shall get somewhere
Outcomes == {"ok"} \cup (IF faults < MaxFaults /\ Rare(6) THEN {"before", "after"} ELSE {})
Done(res, o) ==
    /\ last' = IF res = "ok" \/ o.failed \/ ~o.must THEN "ok" ELSE "refused"
    /\ op' = Nothing
    /\ may' = [may EXCEPT ![o.ls] = Set(@, o.t, (IF res = "ok" THEN {} ELSE At(@, o.t, {})) \cup {o.v})]
    /\ need' = [need EXCEPT ![o.ls] = IF res = "ok" THEN Set(@, o.t, TRUE) ELSE @]
    /\ Log([op |-> "write", ls |-> o.ls, t |-> o.t, plan |-> o.plan])
\* after the access: go on, or report the failure
Step(out, o, ix2, st2) ==
    LET p == [o EXCEPT !.n = @ + 1, !.failed = @ \/ out # "ok", !.plan = IF out = "ok" THEN @ ELSE Append(@, <<op.n, out>>)]
        ix3 == IF out = "before" THEN ix ELSE ix2
        st3 == IF out = "before" THEN st ELSE st2
    IN /\ ix' = ix3 /\ st' = st3
       /\ ixs' = IF Index = "tikv" THEN <<ix3>> ELSE IF ix3 = ix THEN ixs ELSE Append(ixs, ix3)
       /\ sts' = IF Store = "tikv" THEN <<st3>> ELSE IF st3 = st THEN sts ELSE Append(sts, st3)
       /\ faults' = faults + (IF out = "ok" THEN 0 ELSE 1)
       /\ LET was == At(st, op.id, <<>>)  now == At(st3, op.id, <<>>)
          IN seen' = IF now = was THEN seen ELSE [seen EXCEPT ![op.ls] = Append(@, now)]
       /\ IF out # "ok" /\ ~(Mistake = "ignore" /\ o.pc \in {"pairs", "link"})
          THEN Done("error", p)
          ELSE IF o.pc = "end" THEN Done(IF o.refused THEN "error" ELSE "ok", p)
          ELSE op' = p /\ UNCHANGED <<need, may, last, hist>>
       /\ UNCHANGED <<alive, ops>>

Goto(pc) == [op EXCEPT !.pc = pc]
Pairs(o) == [o EXCEPT !.pc = IF o.left = <<>> THEN (IF Mistake = "link first" THEN "data" ELSE "link") ELSE "pairs"]
Find(out) ==
    /\ op.pc = "find"
    /\ LET id == At(ix.link, op.ls, 0)
       IN IF id = 0 THEN /\ next' = IF out = "ok" THEN next + 1 ELSE next
                         /\ Step(out, [op EXCEPT !.pc = IF Mistake = "link first" THEN "link" ELSE "meta", !.id = next, !.left = Order(op.ls)], ix, st)
          ELSE UNCHANGED next /\ Step(out, [op EXCEPT !.pc = "data", !.id = id], ix, st)
Meta(out) == /\ op.pc = "meta" /\ UNCHANGED next
             /\ Step(out, [op EXCEPT !.pc = "pairs"], [ix EXCEPT !.meta = Set(@, op.id, op.ls)], st)
\* the list of a pair is read, and written with the id at its end
PairRead(out) == /\ op.pc = "pairs" /\ ~op.got /\ UNCHANGED next
                 /\ Step(out, [op EXCEPT !.got = TRUE, !.list = IF out = "ok" THEN At(ix.rev, Head(op.left), <<>>) ELSE <<>>], ix, st)
PairWrite(out) == /\ op.pc = "pairs" /\ op.got /\ UNCHANGED next
                  /\ Step(out, Pairs([op EXCEPT !.got = FALSE, !.list = <<>>, !.left = Tail(@)]),
                          [ix EXCEPT !.rev = Set(@, Head(op.left), Append(op.list, op.id))], st)
Link(out) == /\ op.pc = "link" /\ UNCHANGED next
             /\ Step(out, Goto(IF Mistake = "link first" THEN "meta" ELSE "data"),
                     IF Mistake = "no link" THEN ix ELSE [ix EXCEPT !.link = Set(@, op.ls, op.id)], st)
\* the stored series is read, and written back with the sample
Data(out) == /\ op.pc = "data" /\ UNCHANGED next
             /\ LET s == IF Mistake = "blind" THEN <<>> ELSE At(st, op.id, <<>>)
                IN IF Store = "tikv" /\ MaxTime(s) >= op.t
                   THEN Step(out, [op EXCEPT !.pc = "end", !.refused = TRUE], ix, st)
                   ELSE Step(out, [op EXCEPT !.pc = "put", !.old = s], ix, st)
Put(out) == /\ op.pc = "put" /\ UNCHANGED next
            /\ Step(out, [op EXCEPT !.pc = "end", !.old = <<>>], ix, Set(st, op.id, Set(op.old, op.t, op.v)))

Flush == /\ Rare(4) /\ alive /\ op.pc = "idle" /\ (Len(ixs) > 1 \/ Len(sts) > 1)
         /\ ixs' = <<ix>> /\ sts' = <<st>> /\ seen' = [ls \in Sets |-> <<seen[ls][Len(seen[ls])]>>]
         /\ Log([op |-> "flush", ls |-> {}, t |-> 0, plan |-> <<>>])
         /\ UNCHANGED <<ix, st, next, op, need, may, alive, ops, faults, last>>
Die == /\ Rare(5) /\ alive /\ (GenFile = "" \/ Len(hist) >= GenDepth - 3)
       /\ alive' = FALSE
       /\ \E k \in (IF GenFile = "" THEN 1 ELSE Len(ixs))..Len(ixs) : ix' = ixs[k]
       /\ \E k \in (IF GenFile = "" THEN 1 ELSE Len(sts))..Len(sts) : st' = sts[k]
       /\ op' = Nothing
       /\ Log([op |-> "die", ls |-> op.ls, t |-> op.t, plan |-> op.plan \o << <<op.n, "die">> >>])
       /\ UNCHANGED <<ixs, sts, next, seen, need, may, ops, faults, last>>

Access(out) == Find(out) \/ Meta(out) \/ PairRead(out) \/ PairWrite(out) \/ Link(out) \/ Data(out) \/ Put(out)
Next == \/ \E ls \in Sets, t \in Times : Begin(ls, t)
        \/ \E out \in Outcomes : Access(out)
        \/ Flush \/ Die
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Rest == alive /\ op.pc = "idle"
One == \A m \in Matchers : \A x, y \in Rows(m) : x[2] = y[2] => x[1] = y[1]
Sound == \A m \in Matchers : \A x \in Rows(m) : m \subseteq x[2]
Found == Rest => \A ls \in Sets : \A m \in Matchers : m \subseteq ls => DOMAIN need[ls] \subseteq DOMAIN Shown(m, ls)
Intact == Rest => \A ls \in Sets : \A m \in Matchers : m \subseteq ls =>
              LET s == Shown(m, ls) IN \A t \in DOMAIN s : t \in DOMAIN may[ls] /\ s[t] \in may[ls][t]
Again == last # "refused"
Prefix == ~alive => \A ls \in Sets : \A m \in Matchers : m \subseteq ls =>
              (Shown(m, ls) \in {seen[ls][k] : k \in 1..Len(seen[ls])}
               \* an index that lost the series is a series without samples
               \/ (Shown(m, ls) = <<>> /\ seen[ls][1] = <<>>))
Emit == (GenFile # "" /\ ~alive) => CSVWrite("%1$s", <<ToJson(hist)>>, GenFile)
=============================================================================
