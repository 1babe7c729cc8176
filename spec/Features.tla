------------------------------- MODULE Features -------------------------------
(***************************************************************************)
(* Features.  Dependents request the crate with some of its features, with *)
(* or without the default ones; the requests are unified, implied features *)
(* are added until nothing changes, the crates that are needed are linked, *)
(* and the implementations for the types of these crates become available. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Named == {"alloc", "std"}
Feature == Named \cup {"default"}
\* what a feature turns on
Implied(f) == CASE f = "default" -> {"std"} [] f = "std" -> {"alloc"} [] f = "alloc" -> {}

\* the crate where a type is, and the feature that turns it on ("" for none)
AllocC == {"Box", "Vec", "VecIter", "VecDeque", "VecDequeIter", "LinkedList", "LinkedListIter", "BTreeSet", "BTreeSetIter",
           "BTreeMap", "BTreeMapIter", "BinaryHeap", "BinaryHeapIter"}
StdC == {"HashSet", "HashSetIter", "HashMap", "HashMapIter"}
CoreC == {"Cell", "RefCell", "UnsafeCell", "RangeFrom", "RangeTo", "RangeToInclusive", "Range", "RangeInclusive", "Option", "OptIter",
          "ResIter", "Poll", "Bound", "Arr", "Phantom", "Result", "ControlFlow"}
\* types that have implementations in no configuration
NoneC == {"Tup1", "Tup2", "Ref", "RefMut", "ConstPtr", "FnPtr", "Str", "U8", "Unit", "Slice"}
LibC == CoreC \cup AllocC \cup StdC
Home(c) == IF c \in CoreC THEN "core" ELSE IF c \in AllocC THEN "alloc" ELSE "std"
Gate(crate) == CASE crate = "core" -> {} [] crate = "alloc" -> {"alloc"} [] crate = "std" -> {"std"}
Args(c) == IF c \in {"BTreeMap", "BTreeMapIter", "HashMap", "HashMapIter", "Result", "ControlFlow"} THEN 2 ELSE 1

Req(d, fs) == [d |-> d, fs |-> fs]
Requests == {Req(d, fs) : d \in BOOLEAN, fs \in SUBSET Named}

-----------------------------------------------------------------------------
(* The machine *)
StartM == [ph |-> "unify", at |-> 1, on |-> {}, linked |-> {"core"}, impls |-> {}]
Step(m, reqs) ==
  CASE m.ph = "unify" -> IF m.at > Len(reqs) THEN [m EXCEPT !.ph = "imply"]
                         ELSE [m EXCEPT !.at = @ + 1, !.on = @ \cup reqs[m.at].fs \cup (IF reqs[m.at].d THEN {"default"} ELSE {})]
    [] m.ph = "imply" -> LET new == UNION {Implied(f) : f \in m.on} \ m.on IN
                         IF new = {} THEN [m EXCEPT !.ph = "link"] ELSE [m EXCEPT !.on = @ \cup {CHOOSE f \in new : TRUE}]
    [] m.ph = "link" -> LET new == {c \in {"alloc", "std"} : Gate(c) \subseteq m.on} \ m.linked IN
                        IF new = {} THEN [m EXCEPT !.ph = "impls"] ELSE [m EXCEPT !.linked = @ \cup {CHOOSE c \in new : TRUE}]
    [] m.ph = "impls" -> [m EXCEPT !.ph = "done", !.impls = {c \in LibC : Home(c) \in m.linked}]
Result(reqs) == LET RECURSIVE go(_)
                    go(m) == IF m.ph = "done" THEN m ELSE go(Step(m, reqs))
                IN go(StartM)

-----------------------------------------------------------------------------
(* What users rely on, said without the machine *)
RECURSIVE Wants(_, _)
\* some dependent asks for f, or for something that turns it on
Wants(reqs, f) == \/ \E i \in DOMAIN reqs : f \in reqs[i].fs \/ (f = "default" /\ reqs[i].d)
                  \/ \E g \in Feature \ {f} : f \in Implied(g) /\ Wants(reqs, g)
Exact(m, reqs) == m.ph = "done" =>
  /\ CoreC \subseteq m.impls
  /\ (AllocC \subseteq m.impls) = Wants(reqs, "alloc") /\ (AllocC \cap m.impls = {}) = ~Wants(reqs, "alloc")
  /\ (StdC \subseteq m.impls) = Wants(reqs, "std") /\ (StdC \cap m.impls = {}) = ~Wants(reqs, "std")
NoStd(m, reqs) == m.ph = "done" => /\ ("std" \in m.linked) = Wants(reqs, "std")
                                   /\ ("alloc" \in m.linked) = Wants(reqs, "alloc")
\* further dependents never take anything away
Additive(m, reqs) == m.ph = "done" => \A r \in Requests : m.impls \subseteq Result(Append(reqs, r)).impls
=============================================================================
