------------------------------ MODULE Package ------------------------------
(* What the commands for a whole package do: format, check, document, test and create.

   A package is a tree of files. Modules are files M.pen and test modules files M.test.pen in any folder, unless a file
   or a folder on their paths is hidden; other files are none of the commands' business. Each file has a number, which its
   contents come from, and may be written tidily or untidily, may be no program at all ("broken"), or a program which
   does not compile ("wrong"). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Show
VARIABLES files, next, h
vars == <<files, next, h>>

Modules == {"M", "D/N", "D/E/M", "F.pen/G", "low/P", "q"}
Tests == {"M", "D/T", "D/E/T", "T"}
Hidden == {".M.pen", ".hid/H.pen", "D/.hid/T.test.pen"}
Others == {"notes.txt", "M.pen.bak", "D/pen", "M.test.pen.txt"}
Slots == {[kind |-> "module", at |-> m] : m \in Modules} \cup {[kind |-> "test", at |-> m] : m \in Tests}
   \cup {[kind |-> "hidden", at |-> m] : m \in Hidden} \cup {[kind |-> "other", at |-> m] : m \in Others}
Nothing == [none |-> TRUE]
Is(f) == "tidy" \in DOMAIN f
Outcomes == {"pass", "fail", "number", "blank", "quoted"}
File(n, tidy, fault, tests) == [n |-> n, tidy |-> tidy, fault |-> fault, tests |-> tests]

(* --------------------------------------------------------------- the meaning of commands *)
Seen(kind) == {s \in Slots : s.kind = kind /\ Is(files[s])}
Sources == Seen("module") \cup Seen("test")
Parsed(ss) == \A s \in ss : files[s].fault # "broken"
Right(ss) == \A s \in ss : files[s].fault = "none"
Untidy == {s \in Sources : ~files[s].tidy}
(* Modules of low names are private, as are those in folders of low names. *)
Public(s) == s.at \notin {"q", "low/P"}
Documented == {s \in Seen("module") : Public(s)}
Report == {[at |-> s.at, n |-> files[s].n, tests |-> files[s].tests] : s \in Seen("test")}
AllPass == \A s \in Seen("test") : \A i \in DOMAIN files[s].tests : files[s].tests[i] = "pass"
Formatted == [s \in Slots |-> IF s \in Sources THEN [files[s] EXCEPT !.tidy = TRUE] ELSE files[s]]

(* --------------------------------------------------------------- histories *)
Do(o) == h' = Append(h, o)
Write(s, tidy, fault, ts) ==
  /\ files' = [files EXCEPT ![s] = File(next, IF fault = "broken" THEN FALSE ELSE tidy, fault, IF s.kind = "test" THEN ts ELSE <<>>)]
  /\ next' = next + 1
  /\ Do([o |-> "write", s |-> s, f |-> files'[s]])
Delete(s) == Is(files[s]) /\ files' = [files EXCEPT ![s] = Nothing] /\ next' = next /\ Do([o |-> "delete", s |-> s])
Format ==
  /\ next' = next
  /\ files' = IF Parsed(Sources) THEN Formatted ELSE files
  /\ Do([o |-> "format", ok |-> Parsed(Sources)])
Check ==
  /\ UNCHANGED <<files, next>>
  /\ Do([o |-> "check", ok |-> Parsed(Sources) /\ Untidy = {}, lists |-> IF Parsed(Sources) THEN Untidy ELSE {}, parsed |-> Parsed(Sources)])
Document ==
  /\ UNCHANGED <<files, next>>
  /\ Do([o |-> "document", ok |-> Parsed(Seen("module")), lists |-> {[at |-> s.at, n |-> files[s].n] : s \in Documented}])
Test ==
  /\ UNCHANGED <<files, next>>
  /\ Do([o |-> "test", built |-> Right(Sources), ok |-> Right(Sources) /\ AllPass, report |-> Report])
Create(k) == UNCHANGED <<files, next>> /\ Do([o |-> "create", kind |-> k])
Pick(S, x) == RandomElement(S)
Faulty == {s \in Sources : files[s].fault # "none"}
Kinds == <<"module", "module", "module", "test", "test", "test", "hidden", "other">>
Edits ==
  \E z \in {Pick(1..12, h)}, kind \in {Kinds[Pick(1..8, h)]}, tidy \in {Pick(BOOLEAN, h)}, k \in {<<0, 1, 1, 2, 3>>[Pick(1..5, h)]}, good \in {Pick(1..3, h)} :
  \E s \in {Pick({s \in Slots : s.kind = kind}, h)}, ts \in {Pick([1..k -> IF good < 3 THEN {"pass"} ELSE Outcomes], h)} :
    CASE z \in 1..7 -> Write(s, tidy, "none", ts)
      [] z = 8 -> Write(s, tidy, "broken", ts)
      [] z = 9 -> Write(s, tidy, "wrong", ts)
      [] z = 10 -> IF Is(files[s]) THEN Delete(s) ELSE Write(s, tidy, "none", ts)
      [] z \in {11, 12} -> IF Faulty = {} THEN Write(s, tidy, "none", ts)
                           ELSE \E t \in {Pick(Faulty, h)} : IF z = 11 THEN Delete(t) ELSE Write(t, tidy, "none", ts)
Commands ==
  \E z \in {Pick(1..9, h)} :
    CASE z \in {1, 2} -> Format [] z \in {3, 4} -> Check [] z \in {5, 6} -> Document [] z \in {7, 8} -> Test
      [] z = 9 -> \E k \in {Pick({"library", "application"}, h)} : Create(k)
Init == files = [s \in Slots |-> Nothing] /\ next = 1 /\ h = <<>>
Next == /\ Len(h) < MaxOps
        /\ \E z \in {Pick(1..5, h)} : IF Len(h) < 3 \/ z < 3 THEN Edits ELSE Commands
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------------- what holds of them *)
Last == h[Len(h)]
(* After a package is formatted its check succeeds, and formatting again changes nothing. *)
Tidied == (h # <<>> /\ Last.o = "format" /\ Last.ok) => Untidy = {} /\ Formatted = files
(* Only formatting touches files, and only how they are written. *)
Kept == [][\A s \in Slots : (Last'.o # "write" /\ Last'.o # "delete") =>
  IF Is(files[s]) THEN files'[s].n = files[s].n /\ files'[s].fault = files[s].fault /\ files'[s].tests = files[s].tests /\ (s.kind \notin {"module", "test"} => files'[s] = files[s])
  ELSE ~Is(files'[s])]_vars
(* A package of which some file is broken is neither documented, if this is a module, nor tested. *)
Sound == (h # <<>> /\ Last.o = "test" /\ Last.ok) => Right(Sources) /\ \A r \in Last.report : \A i \in DOMAIN r.tests : r.tests[i] = "pass"
Emit == (Show /\ Len(h) = MaxOps) => PrintT("@@" \o ToJson([h |-> h]))
=============================================================================
