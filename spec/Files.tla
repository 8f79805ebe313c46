------------------------------- MODULE Files --------------------------------
(* A file system as programs see it: a tree of names, files which are arrays of bytes and outlive their names while they are
   open, and open files with a cursor each. Every operation gives a value or an error, and errors change nothing. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Focus,      \* which operations follow each other: "flags", "tree", "mix" or "dirs"
          MaxOps, MaxHandles,
          Show

VARIABLES tree,    \* what every path is: Gone, a directory, or the number of a file
          bytes,   \* the contents of every file ever made
          hs,      \* the open files
          start,   \* the first state: trees to begin with
          h        \* the history, each step with what it gives and the files afterwards
vars == <<tree, bytes, hs, start, h>>

Names == {"a", "b", "d"}
Paths == {<<x>> : x \in Names} \cup {<<x, y>> : x \in {"a", "d", "b"}, y \in {"a", "f"}}
Root == <<>>
Gone == -1
Dir == 0
Front(p) == SubSeq(p, 1, Len(p) - 1)
Kind(t, p) == IF p = Root THEN Dir ELSE t[p]
Under(p, q) == Len(q) < Len(p) /\ SubSeq(p, 1, Len(q)) = q
(* Whether there is a directory for a name. *)
Placed(t, p) == p # Root /\ Kind(t, Front(p)) = Dir
Children(t, p) == {q \in Paths : Len(q) = Len(p) + 1 /\ Under(q, p) /\ t[q] # Gone}
Is(t, p) == IF p # Root /\ ~Placed(t, p) THEN Gone ELSE Kind(t, p)

Starts == <<<<[p \in Paths |-> Gone], <<>>>>,
            <<[p \in Paths |-> IF p = <<"a">> THEN 1 ELSE Gone], <<<<1, 2, 3>>>>>>,
            <<[p \in Paths |-> IF p = <<"a">> THEN 1 ELSE IF p = <<"d">> THEN Dir ELSE IF p = <<"d", "f">> THEN 2 ELSE Gone], <<<<1, 2>>, <<3, 4, 5, 6>>>>>>,
            <<[p \in Paths |-> IF p \in {<<"b">>, <<"d">>, <<"d", "a">>} THEN Dir ELSE Gone], <<>>>>>>
Init == /\ start \in 1..Len(Starts)
        /\ tree = Starts[start][1] /\ bytes = Starts[start][2]
        /\ hs = <<>> /\ h = <<>>

(* What is on disk. *)
Disk(t, b) == [p \in {q \in Paths : t[q] # Gone} |-> IF t[p] = Dir THEN <<-1>> ELSE b[t[p]]]
DiskText(t, b) == {[p |-> p, v |-> Disk(t, b)[p]] : p \in DOMAIN Disk(t, b)}
Log(o, r) == h' = Append(h, [o |-> o, r |-> r, disk |-> DiskText(tree', bytes')])
Ok(v) == [ok |-> TRUE, v |-> v]
Wrong == [ok |-> FALSE]
(* Whatever it gives. *)
Fine == [ok |-> TRUE]
Fails(o) == /\ UNCHANGED <<tree, bytes, hs, start>> /\ Log(o, Wrong)
Gives(o, v) == /\ UNCHANGED <<tree, bytes, hs, start>> /\ Log(o, Ok(v))

(* ---- opening *)
Flags == [append : BOOLEAN, create : BOOLEAN, createNew : BOOLEAN, read : BOOLEAN, truncate : BOOLEAN, write : BOOLEAN]
Valid(f) == /\ f.read \/ f.write \/ f.append
            /\ (f.truncate \/ f.create \/ f.createNew) => f.write \/ f.append
            /\ (f.append /\ f.truncate) => f.createNew
Handle(i, f) == [ino |-> i, r |-> f.read, w |-> f.write \/ f.append, app |-> f.append, cur |-> 0, open |-> TRUE]
Open(p, f) ==
  LET o == [o |-> "open", p |-> p, f |-> f]
      k == Is(tree, p)
      new == f.create \/ f.createNew
  IN /\ Len(hs) < MaxHandles
     /\ k = Dir => f.write \/ f.append
     /\ IF ~Valid(f) \/ ~Placed(tree, p) \/ k = Dir \/ (k = Gone /\ ~new) \/ (k > 0 /\ f.createNew) THEN Fails(o)
        ELSE /\ IF k = Gone THEN tree' = [tree EXCEPT ![p] = Len(bytes) + 1] /\ bytes' = Append(bytes, <<>>)
                ELSE UNCHANGED tree /\ bytes' = IF f.truncate THEN [bytes EXCEPT ![k] = <<>>] ELSE bytes
             /\ hs' = Append(hs, Handle(IF k = Gone THEN Len(bytes) + 1 ELSE k, f))
             /\ UNCHANGED start
             /\ Log(o, Fine)
(* ---- open files *)
Rest(x) == SubSeq(bytes[x.ino], x.cur + 1, Len(bytes[x.ino]))
Min(a, b) == IF a < b THEN a ELSE b
Read(a) ==
  LET o == [o |-> "read", h |-> a] IN
  /\ hs[a].open
  /\ IF ~hs[a].r THEN Fails(o)
     ELSE /\ hs' = [hs EXCEPT ![a].cur = @ + Len(Rest(hs[a]))]
          /\ UNCHANGED <<tree, bytes, start>> /\ Log(o, Ok(Rest(hs[a])))
Limit(a, n) ==
  LET o == [o |-> "limit", h |-> a, n |-> n]
      m == Min(n, Len(Rest(hs[a])))
  IN /\ hs[a].open
     /\ n = 0 => hs[a].r
     /\ IF ~hs[a].r THEN Fails(o)
        ELSE /\ hs' = [hs EXCEPT ![a].cur = @ + m]
             /\ UNCHANGED <<tree, bytes, start>> /\ Log(o, Ok(SubSeq(Rest(hs[a]), 1, m)))
Zeros(n) == [i \in 1..n |-> 0]
(* The contents after data was written at a place, which can lie behind the end. *)
Put(b, at, d) == LET c == IF at > Len(b) THEN b \o Zeros(at - Len(b)) ELSE b
                 IN SubSeq(c, 1, at) \o d \o SubSeq(c, at + Len(d) + 1, Len(c))
Write(a, d) ==
  LET o == [o |-> "write", h |-> a, d |-> d]
      at == IF hs[a].app THEN Len(bytes[hs[a].ino]) ELSE hs[a].cur
  IN /\ hs[a].open
     /\ d = <<>> => hs[a].w
     /\ IF ~hs[a].w THEN Fails(o)
        ELSE /\ bytes' = IF d = <<>> THEN bytes ELSE [bytes EXCEPT ![hs[a].ino] = Put(@, at, d)]
             /\ hs' = IF d = <<>> THEN hs ELSE [hs EXCEPT ![a].cur = at + Len(d)]
             /\ UNCHANGED <<tree, start>> /\ Log(o, Ok(<<Len(d)>>))
Close(a) == /\ hs[a].open
            /\ hs' = [hs EXCEPT ![a].open = FALSE]
            /\ UNCHANGED <<tree, bytes, start>> /\ Log([o |-> "close", h |-> a], Fine)
(* ---- names *)
Copy(p, q) ==
  LET o == [o |-> "copy", p |-> p, q |-> q] k == Is(tree, p) IN
  /\ p # q
  /\ IF k <= 0 \/ ~Placed(tree, q) \/ Is(tree, q) = Dir THEN Fails(o)
     ELSE /\ IF tree[q] = Gone THEN tree' = [tree EXCEPT ![q] = Len(bytes) + 1] /\ bytes' = Append(bytes, bytes[k])
             ELSE UNCHANGED tree /\ bytes' = [bytes EXCEPT ![tree[q]] = bytes[k]]
          /\ UNCHANGED <<hs, start>> /\ Log(o, Fine)
(* A tree where everything under p has gone to q. *)
Moved(p, q) == [x \in Paths |-> IF x = q THEN tree[p]
                                ELSE IF x = p \/ Under(x, p) THEN Gone
                                ELSE IF Under(x, q) /\ Len(p) = Len(q) THEN tree[p \o SubSeq(x, Len(q) + 1, Len(x))]
                                ELSE tree[x]]
Move(p, q) ==
  LET o == [o |-> "move", p |-> p, q |-> q]
      k == Is(tree, p)
      l == Is(tree, q)
  IN /\ (k = Dir /\ Len(p) # Len(q)) => Children(tree, p) = {} \/ Under(q, p)
     /\ IF k = Gone \/ ~Placed(tree, q) \/ (k = Dir /\ (Under(q, p) \/ l > 0 \/ (l = Dir /\ p # q /\ Children(tree, q) # {}))) \/ (k > 0 /\ l = Dir) \/ (l = Dir /\ Under(p, q)) THEN Fails(o)
        ELSE /\ tree' = IF p = q THEN tree ELSE Moved(p, q)
             /\ UNCHANGED <<bytes, hs, start>> /\ Log(o, Fine)
Remove(p) ==
  LET o == [o |-> "remove", p |-> p] IN
  IF Is(tree, p) <= 0 THEN Fails(o)
  ELSE tree' = [tree EXCEPT ![p] = Gone] /\ UNCHANGED <<bytes, hs, start>> /\ Log(o, Fine)
Size(p) ==
  LET o == [o |-> "size", p |-> p] k == Is(tree, p) IN
  IF k = Gone THEN Fails(o)
  ELSE UNCHANGED <<tree, bytes, hs, start>> /\ Log(o, IF k = Dir THEN Fine ELSE Ok(<<Len(bytes[k])>>))
(* ---- directories *)
MakeDir(p) ==
  LET o == [o |-> "mkdir", p |-> p] IN
  IF ~Placed(tree, p) \/ Is(tree, p) # Gone THEN Fails(o)
  ELSE tree' = [tree EXCEPT ![p] = Dir] /\ UNCHANGED <<bytes, hs, start>> /\ Log(o, Fine)
RemoveDir(p) ==
  LET o == [o |-> "rmdir", p |-> p] IN
  IF Is(tree, p) # Dir \/ Children(tree, p) # {} THEN Fails(o)
  ELSE tree' = [tree EXCEPT ![p] = Gone] /\ UNCHANGED <<bytes, hs, start>> /\ Log(o, Fine)
List(p) ==
  LET o == [o |-> "list", p |-> p] IN
  IF Is(tree, p) # Dir THEN Fails(o)
  ELSE Gives(o, {q[Len(q)] : q \in Children(tree, p)})

(* ---- names which are none: not text, with a zero in it, or empty *)
NoNames == {<<"!0">>, <<"!1">>, <<"!2">>}
NoName(x) == \/ Len(hs) < MaxHandles /\ Fails([o |-> "open", p |-> x, f |-> [append |-> FALSE, create |-> TRUE, createNew |-> FALSE, read |-> TRUE, truncate |-> FALSE, write |-> TRUE]])
             \/ \E k \in {"remove", "size", "mkdir", "rmdir", "list"} : Fails([o |-> k, p |-> x])
             \/ \E k \in {"copy", "move"}, p \in {<<"a">>, <<"d">>} : Fails([o |-> k, p |-> x, q |-> p]) \/ Fails([o |-> k, p |-> p, q |-> x])

Data == {<<7>>, <<8, 9>>}
On(a) == Read(a) \/ Limit(a, 0) \/ Limit(a, 2) \/ Limit(a, 99) \/ (\E d \in Data \cup {<<>>} : Write(a, d)) \/ Close(a)
Usual == {f \in Flags : Valid(f) /\ f.read /\ f.create /\ ~f.createNew /\ (f.write \/ f.append)}
Common == {<<"a">>, <<"b">>, <<"d">>, <<"d", "f">>, <<"d", "a">>}
Some(S, x) == IF S = {} THEN 0 ELSE RandomElement(S)
Tree == (\E p, q \in Paths : Copy(p, q) \/ Move(p, q)) \/ (\E p \in Paths : Remove(p) \/ Size(p) \/ MakeDir(p) \/ RemoveDir(p)) \/ (\E p \in Paths \cup {Root} : List(p)) \/ \E x \in NoNames : NoName(x)
Next == /\ Len(h) < MaxOps
        /\ CASE Focus = "flags" -> IF h = <<>> THEN start < 4 /\ \E p \in {<<"a">>, <<"d">>, <<"d", "f">>, <<"a", "f">>}, f \in Flags : Open(p, f)
                                   ELSE hs # <<>> /\ On(1)
             [] Focus = "tree" -> Tree
             [] Focus = "mix" -> \E k \in {Some(1..12, h)}, p \in {Some(Common, h)}, q \in {Some(Common, h)}, a \in {Some(1..Len(hs), h)}, d \in {Some(Data, h)} :
                                 (CASE k = 1 -> \E f \in {Some(Flags, h)} : Open(p, f)
                                      [] k = 2 -> \E f \in {Some(Usual, h)} : Open(p, f)
                                      [] k = 3 -> IF hs = <<>> THEN \E f \in {Some(Usual, h)} : Open(<<"a">>, f) ELSE Read(a)
                                      [] k = 4 -> hs # <<>> /\ \E n \in {Some({0, 1, 2, 99}, h)} : Limit(a, n)
                                      [] k \in 5..7 -> hs # <<>> /\ Write(a, d)
                                      [] k = 8 -> hs # <<>> /\ Close(a)
                                      [] k = 9 -> Copy(p, q) \/ Move(p, q)
                                      [] k = 10 -> Remove(p) \/ RemoveDir(q)
                                      [] k = 11 -> MakeDir(p) \/ Size(q) \/ \E x \in {Some(Paths, h)} : List(x)
                                      [] k = 12 -> IF hs = <<>> THEN MakeDir(p) ELSE Read(a))
             [] Focus = "dirs" -> \E k \in {Some(1..9, h)}, p \in {Some(Paths, h)}, q \in {Some(Paths, h)}, r \in {Some(Paths \cup {Root}, h)} :
                                  (CASE k \in 1..3 -> MakeDir(p)
                                       [] k = 4 -> RemoveDir(p)
                                       [] k \in 5..6 -> List(r)
                                       [] k = 7 -> Move(p, q)
                                       [] k = 8 -> Copy(p, q) \/ Remove(p)
                                       [] k = 9 -> \E x \in {Some(NoNames, h)} : NoName(x))
Spec == Init /\ [][Next]_vars

(* Names stand in directories only; every name is of a file that was made; no two names are of one file. *)
WellFormed == \A p \in Paths : /\ tree[p] # Gone => Placed(tree, p)
                               /\ tree[p] <= Len(bytes)
                               /\ \A q \in Paths : (p # q /\ tree[p] > 0) => tree[p] # tree[q]
(* Errors change nothing, and reading neither. *)
Quiet == [][(~h'[Len(h')].r.ok \/ h'[Len(h')].o.o \in {"read", "limit", "list", "size", "close"}) => UNCHANGED <<tree, bytes>>]_vars
(* What was written is there: right behind the place, the file has the data. *)
Written == \A a \in DOMAIN hs : h # <<>> /\ LET s == h[Len(h)] IN s.o.o = "write" /\ s.r.ok /\ s.o.h = a => SubSeq(bytes[hs[a].ino], hs[a].cur - Len(s.o.d) + 1, hs[a].cur) = s.o.d
WrittenWell == h = <<>> \/ Written
Done == Len(h) = MaxOps \/ ~ENABLED Next
Emit == (Show /\ h # <<>> /\ Done) => PrintT("@@" \o ToJson([start |-> DiskText(Starts[start][1], Starts[start][2]), h |-> h]))
=============================================================================
