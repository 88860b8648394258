---------------------------- MODULE CommandLine ----------------------------
(* What the options of the server mean: which combinations are served at all, and where a component keeps its data.     *)
(* Numbers are given as [num, n]: whether the text is a number, and which.  `yaml` is the kind of the TiKV configuration *)
(* file: "none" (not given), "dry", "cluster", "broken" (cannot be read) or "missing" (there is no such file).           *)
EXTENDS Naturals, Sequences

Kinds == {"sled", "tikv"}
Number(x, lo, hi) == x.num /\ lo <= x.n /\ x.n <= hi
UsesTikv(c) == c.storage = "tikv" \/ c.indexer = "tikv"
Serves(c) ==
    /\ c.storage \in Kinds /\ c.indexer \in Kinds
    /\ Number(c.port, 1024, 65535)
    /\ Number(c.secs, 0, 2000000000)
    /\ Number(c.workers, 0, 2000000000)
    /\ UsesTikv(c) => c.yaml \in {"none", "dry", "cluster"}

\* the components of a chunk that have files of their own, and whether the cluster is used
OnDisk(c) == (IF c.storage = "sled" THEN {"storage"} ELSE {}) \cup (IF c.indexer = "sled" THEN {"indexer"} ELSE {})
InCluster(c) == UsesTikv(c) /\ c.yaml = "cluster"
\* does the data outlive the process?
Durable(c) == UsesTikv(c) => c.yaml = "cluster"
=============================================================================
