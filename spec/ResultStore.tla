----------------------------- MODULE ResultStore -----------------------------
(* What a VqeResult remembers.  A Vqe (with sampler Own, 0 = the exact one) is run some number
   of times; every run yields a result which stores at most one distribution.  Reading the
   probabilities either returns what is stored or draws afresh, from the sampler given, else
   the Vqe's own, else exactly.  A drawn distribution is named <<sampler, result, call>> (call
   counts that sampler's calls; the exact one always yields the same, call 0).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, CSV, IOUtils

CONSTANTS Samplers, MaxRuns, Depth
VARIABLES own, stored, calls, hist
vars == <<own, stored, calls, hist>>

None == <<>>
Ev(op, res, s, rerun, store, m, val) == [op |-> op, res |-> res, s |-> s, rerun |-> rerun, store |-> store, m |-> m, val |-> val]

Init == /\ own \in {0} \cup Samplers
        /\ stored = <<>>
        /\ calls = [s \in Samplers |-> 0]
        /\ hist = <<Ev("new", 0, own, "default", TRUE, 0, None)>>

Run == /\ Len(stored) < MaxRuns
       /\ stored' = Append(stored, None)
       /\ hist' = Append(hist, Ev("run", Len(stored) + 1, 0, "default", TRUE, 0, None))
       /\ UNCHANGED <<own, calls>>

Latest == /\ stored' = stored /\ UNCHANGED <<own, calls>>
          /\ hist' = Append(hist, Ev("latest", Len(stored), 0, "default", TRUE, 0, None))

\* s: 0 = no sampler given; rerun: "default", "yes" or "no"
Read(op, r, s, rerun, store, m) ==
    LET again == IF rerun = "default" THEN s # 0 ELSE rerun = "yes"
        kept  == stored[r] # None /\ ~again
        src   == IF s # 0 THEN s ELSE own
        call  == IF src = 0 THEN 0 ELSE calls[src] + 1
        val   == IF kept THEN stored[r] ELSE <<src, r, call>>
    IN /\ stored' = IF ~kept /\ store THEN [stored EXCEPT ![r] = val] ELSE stored
       /\ calls' = IF ~kept /\ src # 0 THEN [calls EXCEPT ![src] = call] ELSE calls
       /\ hist' = Append(hist, Ev(op, r, s, rerun, store, m, val))
       /\ UNCHANGED own

GetProbs == \E r \in DOMAIN stored, s \in {0} \cup Samplers, rerun \in {"default", "yes", "no"}, store \in BOOLEAN :
                Read("get", r, s, rerun, store, 0)
Plain  == \E r \in DOMAIN stored : Read("get", r, 0, "default", TRUE, 0)
Probs  == \E r \in DOMAIN stored : Read("probs", r, 0, "default", TRUE, 0)
Common == \E r \in DOMAIN stored, m \in 1..3 : Read("common", r, 0, "default", TRUE, m)

Finish == /\ Len(hist) = Depth
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
          /\ hist' = Append(hist, Ev("end", 0, 0, "default", TRUE, 0, None))
          /\ UNCHANGED <<own, stored, calls>>

Next == IF Len(hist) < Depth THEN Run \/ Latest \/ GetProbs \/ Plain \/ Probs \/ Common ELSE Finish
Spec == Init /\ [][Next]_vars

Reads == {i \in DOMAIN hist : hist[i].op \in {"get", "probs", "common"}}
\* what is stored was drawn for that very result
OwnOK == \A r \in DOMAIN stored : stored[r] # None => stored[r][2] = r
\* without a sampler, a rerun or store=False, reading twice in a row gives the same
StableOK == \A i \in Reads : LET e == hist[i] IN
    (i + 1 \in Reads /\ hist[i + 1].res = e.res /\ e.store /\ hist[i + 1].s = 0 /\ hist[i + 1].rerun = "default") => hist[i + 1].val = e.val
\* a sampler that is given is the one that is used
GivenOK == \A i \in Reads : (hist[i].s # 0 /\ hist[i].rerun # "no") => hist[i].val[1] = hist[i].s
\* store=False leaves no trace: nothing that was drawn under it is returned by a later read
NoTraceOK == \A i, j \in Reads : (i < j /\ ~hist[i].store /\ hist[j].val # None /\ hist[j].val[3] # 0 /\ hist[j].val = hist[i].val)
                 => \E k \in Reads : k < i /\ hist[k].val = hist[i].val
=============================================================================
