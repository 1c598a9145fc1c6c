------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* C17.  The registries of gates, macros and backends, the global default    *)
(* backend and the default backends of circuits.  IN holds                   *)
(*   [names    sequence of gate/macro names to use,                          *)
(*    reserved sequence of those that are attributes of every circuit,       *)
(*    gates    sequence of those that are gates at the start,                *)
(*    rw       those that name "run_with_<backend>", as <<name, backend>>,   *)
(*    bnames   backend names, builtin  those registered at the start,        *)
(*    default  the global default at the start,                              *)
(*    vals     number of distinct objects registered,                        *)
(*    slots    circuits, depth, bfs (exhaustive exploration, no histories)]  *)
(* A registry maps names to values; value 0 is what was there at the start.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC, Json, IOUtils, CSV
In == JsonDeserialize(IOEnv.IN)
ToS(q) == {q[i] : i \in 1..Len(q)}
Names == ToS(In.names)
Reserved == ToS(In.reserved)
BNames == ToS(In.bnames)
RW == ToS(In.rw)                          \* <<attribute, backend name>>
IsRW(x) == \E p \in RW : p[1] = x
BackendOf(x) == (CHOOSE p \in RW : p[1] = x)[2]
Vals == 1..In.vals
NoDefault == "-"

VARIABLES g, m, b,      \* gates, macros, backends: functions from names to values
          gd, cd,       \* global default, defaults of the circuits
          used,         \* backend objects a circuit has made, per name (only what may be shared)
          hist, done
vars == <<g, m, b, gd, cd, hist, done, used>>
Start(S) == [x \in S |-> 0]
Init == /\ g = Start(ToS(In.gates)) /\ m = Start({}) /\ b = Start(ToS(In.builtin))
        /\ gd = In.default /\ cd = [s \in 1..In.slots |-> NoDefault]
        /\ used = 0 /\ hist = <<>> /\ done = FALSE

Pick(S) == IF In.bfs THEN S ELSE {RandomElement(S)}
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Ev(e) == hist' = (IF In.bfs THEN <<>> ELSE Append(hist, e)) /\ UNCHANGED <<done, used>>

Free(x) == x \notin Reserved /\ ~IsRW(x) /\ x \notin DOMAIN g /\ x \notin DOMAIN m
RegGate == \E x \in Pick(Names) : \E v \in Pick(Vals) : \E ow \in Pick(BOOLEAN) :
  /\ g' = IF ow \/ Free(x) THEN Put(g, x, v) ELSE g
  /\ UNCHANGED <<m, b, gd, cd>> /\ Ev([a |-> "reg_gate", x |-> x, v |-> v, ow |-> ow, ok |-> ow \/ Free(x)])
RegMacro == \E x \in Pick(Names) : \E v \in Pick(Vals) : \E ow \in Pick(BOOLEAN) :
  /\ m' = IF ow \/ Free(x) THEN Put(m, x, v) ELSE m
  /\ UNCHANGED <<g, b, gd, cd>> /\ Ev([a |-> "reg_macro", x |-> x, v |-> v, ow |-> ow, ok |-> ow \/ Free(x)])
RegBackend == \E x \in Pick(BNames) : \E v \in Pick(Vals) : \E ow \in Pick(BOOLEAN) :
  /\ b' = IF ow \/ x \notin DOMAIN b THEN Put(b, x, v) ELSE b
  /\ UNCHANGED <<g, m, gd, cd>> /\ Ev([a |-> "reg_backend", x |-> x, v |-> v, ow |-> ow, ok |-> ow \/ x \notin DOMAIN b])
UnGate == \E x \in Pick(Names) :
  /\ g' = Del(g, x) /\ UNCHANGED <<m, b, gd, cd>> /\ Ev([a |-> "un_gate", x |-> x, ok |-> x \in DOMAIN g])
UnMacro == \E x \in Pick(Names) :
  /\ m' = Del(m, x) /\ UNCHANGED <<g, b, gd, cd>> /\ Ev([a |-> "un_macro", x |-> x, ok |-> x \in DOMAIN m])
UnBackend == \E x \in Pick(BNames) : \E o \in Pick(BOOLEAN) :
  /\ b' = Del(b, x) /\ UNCHANGED <<g, m, gd, cd>> /\ Ev([a |-> "un_backend", x |-> x, old |-> o, ok |-> x \in DOMAIN b])
SetGlobal == \E x \in Pick(BNames) :
  /\ gd' = IF x \in DOMAIN b THEN x ELSE gd
  /\ UNCHANGED <<g, m, b, cd>> /\ Ev([a |-> "set_global", x |-> x, ok |-> x \in DOMAIN b])
SetCircuit == \E s \in Pick(1..In.slots) : \E x \in Pick(BNames \cup {NoDefault}) :
  /\ cd' = IF x = NoDefault \/ x \in DOMAIN b THEN [cd EXCEPT ![s] = x] ELSE cd
  /\ UNCHANGED <<g, m, b, gd>> /\ Ev([a |-> "set_circuit", s |-> s, x |-> x, ok |-> x = NoDefault \/ x \in DOMAIN b])
\* a new circuit, or one derived from another with or without its default backend
Derive == \E s \in Pick(1..In.slots) : \E z \in Pick(1..In.slots) : \E how \in Pick({"new", "copy", "dagger", "add", "iadd"}) : \E keep \in Pick(BOOLEAN) : \E t \in (IF In.bfs THEN {1} ELSE Pick(1..In.slots)) :
  \* a sum has the default backend of its left operand, whatever the other's is
  /\ cd' = [cd EXCEPT ![z] = IF how = "new" \/ (how \in {"copy", "dagger"} /\ ~keep) THEN NoDefault ELSE cd[s]]
  /\ UNCHANGED <<g, m, b, gd>> /\ Ev([a |-> "derive", s |-> s, z |-> z, how |-> how, keep |-> keep, t |-> t])
\* queries
Kind(x) == IF x \in Reserved THEN <<"attr", 0>> ELSE IF x \in DOMAIN g THEN <<"gate", g[x]>>
           ELSE IF x \in DOMAIN m THEN <<"macro", m[x]>>
           ELSE IF IsRW(x) /\ BackendOf(x) \in DOMAIN b THEN <<"backend", b[BackendOf(x)]>> ELSE <<"none", 0>>
Resolve == \E s \in Pick(1..In.slots) : \E x \in Pick(Names) :
  /\ UNCHANGED <<g, m, b, gd, cd>> /\ Ev([a |-> "resolve", s |-> s, x |-> x, res |-> Kind(x)])
Effective(s) == IF cd[s] = NoDefault THEN gd ELSE cd[s]
Found(x) == IF x \in DOMAIN b THEN <<"backend", b[x], x>> ELSE <<"none", 0, x>>
Run == \E s \in Pick(1..In.slots) : \E x \in Pick(BNames \cup {NoDefault}) : \E how \in Pick({"run", "run", "make_cache", "run_with"}) :
  /\ UNCHANGED <<g, m, b, gd, cd>>
  /\ Ev([a |-> "run", s |-> s, x |-> x, how |-> how, res |-> Found(IF x = NoDefault THEN Effective(s) ELSE x)])
RunObject == \E s \in Pick(1..In.slots) : \E v \in Pick(Vals) :
  /\ UNCHANGED <<g, m, b, gd, cd>> /\ Ev([a |-> "run_object", s |-> s, v |-> v])
Defaults == \E s \in Pick(1..In.slots) :
  /\ UNCHANGED <<g, m, b, gd, cd>> /\ Ev([a |-> "defaults", s |-> s, gd |-> gd, cd |-> Effective(s)])

Step == \E k \in (IF In.bfs THEN {1, 4, 7, 11, 12, 13, 15, 16, 18} ELSE {RandomElement(1..32)}) :
  \/ k \in 1..3 /\ RegGate
  \/ k \in 4..6 /\ RegMacro
  \/ k \in 7..10 /\ RegBackend
  \/ k = 11 /\ UnGate
  \/ k = 12 /\ UnMacro
  \/ k \in 13..14 /\ UnBackend
  \/ k = 15 /\ SetGlobal
  \/ k \in 16..17 /\ SetCircuit
  \/ k \in {18, 31, 32} /\ Derive
  \/ k \in 19..22 /\ Resolve
  \/ k \in 23..27 /\ Run
  \/ k = 28 /\ RunObject
  \/ k \in 29..30 /\ Defaults
Finish == Len(hist) = In.depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<g, m, b, gd, cd, hist, used>>
          /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
Next == ((In.bfs \/ Len(hist) < In.depth) /\ Step) \/ (~In.bfs /\ Finish)
Spec == Init /\ [][Next]_vars

TypeOK == /\ DOMAIN g \subseteq Names /\ DOMAIN m \subseteq Names /\ DOMAIN b \subseteq BNames
          /\ gd \in BNames /\ \A s \in 1..In.slots : cd[s] \in BNames \cup {NoDefault}
\* without allow_overwrite an occupied name keeps its meaning: a step changes the meaning of
\* at most one name, and never of a reserved one
Changed == {x \in Names : Kind(x) # Kind(x)'}
ReservedKept == [][\A x \in Reserved : Kind(x)' = Kind(x)]_vars
\* a gate or macro step changes one name; a backend step changes one run_with attribute
OneName == [][Cardinality({x \in Names : (IF x \in DOMAIN g THEN g[x] ELSE -1) # (IF x \in DOMAIN g' THEN g'[x] ELSE -1)
                                          \/ (IF x \in DOMAIN m THEN m[x] ELSE -1) # (IF x \in DOMAIN m' THEN m'[x] ELSE -1)})
              + Cardinality({x \in BNames : (IF x \in DOMAIN b THEN b[x] ELSE -1) # (IF x \in DOMAIN b' THEN b'[x] ELSE -1)}) <= 1]_vars
\* defaults are only ever set to names registered at that moment
DefaultsRegistered == [][/\ gd' # gd => gd' \in DOMAIN b'
                         /\ \A s \in 1..In.slots : (cd'[s] # cd[s] /\ cd'[s] # NoDefault) => (cd'[s] \in DOMAIN b' \/ \E t \in 1..In.slots : cd[t] = cd'[s])]_vars
=============================================================================
