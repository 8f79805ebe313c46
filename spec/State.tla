------------------------------- MODULE State -------------------------------
(* Test states: cells which hold the value written to them last, none (0) at first, and which are shared by aliases.
   A cell and the value in it live as long as an alias of the cell does. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, MaxHandles, MaxValues, Show

VARIABLES cells,    \* the value of every state ever made
          frozen,   \* whether it is frozen: what is read or written afterwards is not specified
          handles,  \* the state of every alias, 0 once it is released
          values,   \* how many values were written
          h         \* the history, each step with what it gives and which values live after it
vars == <<cells, frozen, handles, values, h>>

Held(cs, hs) == {c \in DOMAIN cs : \E a \in DOMAIN hs : hs[a] = c}
(* How often a value is held. *)
Live(cs, hs) == {<<v, Cardinality({c \in Held(cs, hs) : cs[c] = v})>> : v \in {cs[c] : c \in Held(cs, hs)} \ {0}}
Log(o) == h' = Append(h, [o |-> o, live |-> Live(cells', handles')])

Init == cells = <<>> /\ frozen = {} /\ handles = <<>> /\ values = 0 /\ h = <<>>
New == /\ Len(handles) < MaxHandles
       /\ cells' = Append(cells, 0)
       /\ handles' = Append(handles, Len(cells) + 1)
       /\ Log([o |-> "new"])
       /\ UNCHANGED <<frozen, values>>
Share(a) == /\ handles[a] # 0 /\ Len(handles) < MaxHandles
            /\ handles' = Append(handles, handles[a])
            /\ UNCHANGED <<cells, frozen, values>>
            /\ Log([o |-> "share", h |-> a])
Release(a) == /\ handles[a] # 0
              /\ handles' = [handles EXCEPT ![a] = 0]
              /\ UNCHANGED <<cells, frozen, values>>
              /\ Log([o |-> "release", h |-> a])
Usable(a) == handles[a] # 0 /\ handles[a] \notin frozen
Get(a) == /\ Usable(a)
          /\ UNCHANGED <<cells, frozen, handles, values>>
          /\ Log([o |-> "get", h |-> a, r |-> cells[handles[a]]])
Set(a, v) == /\ Usable(a)
             /\ v \in {0, values + 1} /\ v <= MaxValues
             /\ cells' = [cells EXCEPT ![handles[a]] = v]
             /\ values' = IF v = 0 THEN values ELSE v
             /\ UNCHANGED <<frozen, handles>>
             /\ Log([o |-> "set", h |-> a, v |-> v])
Freeze(a) == /\ Usable(a)
             /\ frozen' = frozen \cup {handles[a]}
             /\ UNCHANGED <<cells, handles, values>>
             /\ Log([o |-> "freeze", h |-> a])
Next == /\ Len(h) < MaxOps
        /\ \/ New
           \/ \E a \in DOMAIN handles : Share(a) \/ Release(a) \/ Get(a) \/ Set(a, 0) \/ Set(a, values + 1) \/ Freeze(a)
Spec == Init /\ [][Next]_vars

(* Reading twice gives the same; what one alias writes every alias of the state reads, and nobody else. *)
Reads == \A j, k \in DOMAIN h :
  (j < k /\ h[j].o.o = "get" /\ h[k].o.o = "get" /\ handles[h[j].o.h] # 0 /\ handles[h[j].o.h] = handles[h[k].o.h]
   /\ ~\E m \in j..k : h[m].o.o = "set" /\ handles[h[m].o.h] \in {0, handles[h[j].o.h]}) => h[j].o.r = h[k].o.r
Released == (\A a \in DOMAIN handles : handles[a] = 0) => Live(cells, handles) = {}
Emit == (Show /\ Len(h) = MaxOps) => PrintT("@@" \o ToJson(h))
=============================================================================
