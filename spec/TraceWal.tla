------------------------------ MODULE TraceWal ------------------------------
(* Checks the bytes a real segment gave to its writer during each call against Wal.                                     *)
EXTENDS Wal, Json, IOUtils

VARIABLES i, policy, limit, kept, new, crc, bad, off
vars == <<i, policy, limit, kept, new, crc, bad, off>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[i]

Report(kinds) == IF kinds = {} THEN TRUE ELSE PrintT(<<"WRONG", i, kinds>>)

Init == i = 1 /\ policy = "" /\ limit = 0 /\ kept = <<>> /\ new = <<>> /\ crc = Ones(8) /\ bad = TRUE /\ off = 0

\* new: the frames since the last flush, which the limit is about
\* kept: the frames that have not been written, of the first of which `off' bytes have been (a buffering writer does that, and one that refuses)
Min2(a, b) == IF a < b THEN a ELSE b
Owed(es) == LET all == FlattenSeq(es) IN SubSeq(all, off + 1, Len(all))
Length(es) == FoldLeft(LAMBDA a, f : a + Len(f), 0, es)
\* how many of the frames fit into n bytes
Whole(es, n) == FoldLeft(LAMBDA a, f : IF a.open /\ a.at + Len(f) <= n THEN [at |-> a.at + Len(f), k |-> a.k + 1, open |-> TRUE]
                                       ELSE [a EXCEPT !.open = FALSE],
                         [at |-> 0, k |-> 0, open |-> TRUE], es)

New ==
    /\ E.e = "segment"
    /\ policy' = E.policy /\ limit' = E.limit /\ kept' = <<>> /\ new' = <<>> /\ crc' = Ones(8) /\ off' = 0
    /\ LET wrong == IF E.res # "ok" THEN {E.res} ELSE IF E.got # Header THEN {"header"} ELSE {}
       IN Report(wrong) /\ bad' = (wrong # {})

\* sizes of kept frames decide, as frames: [Due] speaks of entries, of which the sizes matter only
DueNow(es, call) == \/ call \in {"flush", "close"}
                    \/ policy = "immediate" /\ es # <<>>
                    \/ policy = "count" /\ es # <<>> /\ Len(es) >= limit
                    \/ policy = "size" /\ es # <<>> /\ Length(es) >= limit

Call ==
    /\ E.e \in {"entry", "flush", "close"} /\ ~bad
    /\ LET es == IF E.e = "entry" THEN Append(kept, Frame(E)) ELSE kept
           owed == Owed(es)
           news == IF E.e = "entry" THEN Append(new, Frame(E)) ELSE new
           \* a call that fails because the file refused: what is left is owed still
           gaveup == E.res = "error" /\ E.refused > 0
           n == IF gaveup THEN Min2(Len(E.got), Len(owed))
                ELSE IF E.e = "close" /\ Len(E.got) >= 8 THEN Len(E.got) - 8 ELSE Len(E.got)
           body == SubSeq(E.got, 1, n)
           rest == SubSeq(E.got, n + 1, Len(E.got))
           w == Whole(es, off + n)
           fed == Feed64(crc, body)
           wrong == IF E.res # "ok" /\ ~gaveup THEN {E.res}
                    ELSE IF ~IsPrefix(body, owed) \/ (n # 0 /\ E.sink # "buffered" /\ ~gaveup /\ w.at # off + n) THEN {"frames"}
                    ELSE IF gaveup THEN IF rest = <<>> \/ (E.e = "close" /\ IsPrefix(rest, Final(fed))) THEN {} ELSE {"frames"}
                    ELSE IF DueNow(news, E.e) /\ n # Len(owed) THEN {"late"}
                    ELSE IF E.e = "close" /\ rest # Final(fed) THEN {"checksum"}
                    ELSE {}
       IN /\ Report(wrong)
          \* a file that refused a part of the checksum, or a buffer that may hold it, is left alone
          /\ bad' = (wrong # {} \/ (E.e = "close" /\ (~gaveup \/ rest # <<>> \/ E.sink = "buffered")))
          /\ kept' = SubSeq(es, w.k + 1, Len(es)) /\ off' = off + n - w.at
          /\ crc' = fed
          /\ new' = IF gaveup \/ n = Len(owed) THEN <<>> ELSE news
    /\ UNCHANGED <<policy, limit>>
\* what follows something wrong, or close, is not judged
Skip == E.e \in {"entry", "flush", "close"} /\ bad /\ UNCHANGED <<policy, limit, kept, new, crc, bad, off>>
Other == E.e \in {"hang", "died"} /\ Report({E.e}) /\ UNCHANGED <<policy, limit, kept, new, crc, bad, off>>

Next == i <= Len(Trace) /\ i' = i + 1 /\ (New \/ Call \/ Skip \/ Other)
Spec == Init /\ [][Next]_vars
View == i
=============================================================================
