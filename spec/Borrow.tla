------------------------------- MODULE Borrow -------------------------------
(***************************************************************************)
(* Who may use what when: ownership and borrowing in the safe interface.   *)
(*                                                                         *)
(* Householder.tla lets a call happen only if Rust's rules admit it; here  *)
(* those rules are the subject.  The state is the set of objects a program *)
(* has made so far, with what each borrows from and which memory it can    *)
(* reach.  A call is                                                       *)
(*   Admissible  if every argument is usable in the way the call uses it:  *)
(*               a program ending in it must be accepted by the compiler;  *)
(*   Unsound     if it would use memory behind the back of an object that  *)
(*               relies on it (write under a reader, use of what somebody  *)
(*               holds exclusively, end of memory still in use): such a    *)
(*               program must be rejected by the compiler.                 *)
(* Calls that are neither are left open.  The two never meet (Sound, shown *)
(* by MCBorrow.tla).                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE objs   \* handle -> object

(***************************************************************************)
(* k: "buf" memory of the user; "own" matrix with memory of its own;       *)
(*    "win" matrix over a slice of the user's memory; "blk" block;         *)
(*    "quad" quarter of a split matrix; "ref", "refm" reference objects;   *)
(*    "lazy" sum or product; "el" reference to an element; "sl", "slm" raw *)
(*    slices; "lay" reference to the layout                                *)
(* acc: "own", "rw" or "ro"                                                *)
(* src: the objects it borrows; kids: the objects moved into it            *)
(* cells: memory it reaches: <<owner, quarter>>                            *)
(* st: "live", "moved" (into another object) or "gone"                     *)
(***************************************************************************)
Obj(k, acc, src, kids, cells) == [k |-> k, acc |-> acc, src |-> src, kids |-> kids, cells |-> cells, st |-> "live"]

Dom == DOMAIN objs
There(h) == objs[h].st # "gone"
Live(h) == objs[h].st = "live"

Dense == {"own", "win", "blk", "quad"}
Matrices == Dense \cup {"ref", "refm", "lazy"}

(***************************************************************************)
(* The discipline of Householder.tla                                       *)
(***************************************************************************)
Borrowers(h) == {x \in Dom : There(x) /\ h \in objs[x].src}
Readable(h) == Live(h) /\ \A x \in Borrowers(h) : objs[x].acc # "rw"
Writable(h) == Live(h) /\ Borrowers(h) = {} /\ objs[h].acc \in {"own", "rw"}
Movable(h)  == Live(h) /\ Borrowers(h) = {}

(***************************************************************************)
(* Memory                                                                  *)
(***************************************************************************)
RECURSIVE Closure(_)   \* an object and what was moved into it
Closure(h) == {h} \cup UNION {Closure(x) : x \in objs[h].kids}
RECURSIVE Anc(_)       \* what an object was made from
Anc(h) == LET s == objs[h].src \cup objs[h].kids IN s \cup UNION {Anc(x) : x \in s}
Exclusive(h) == objs[h].acc # "ro"
\* live objects, other than h, its parts and what it was made from, that reach memory of h
Others(h) == {x \in Dom : There(x) /\ x \notin Closure(h) \cup Anc(h) /\ objs[x].cells \cap objs[h].cells # {}}
\* objects that hold a reference to the object itself, not only to memory it refers to
HoldersOf(h) == {x \in Dom : There(x) /\ objs[x].k \in {"ref", "refm", "lay", "lazy"} /\ objs[x].src \cap Closure(h) # {}}
\* memory that ends with the object
Owned(h) == UNION {objs[x].cells : x \in {y \in Closure(h) : objs[y].acc = "own"}}

\* use of an object in the given way would break what others rely on
BadUse(n, h) ==
  IF ~Live(h) THEN \E x \in Closure(h) : Exclusive(x)
  ELSE CASE n = "R" -> \E x \in Others(h) : Exclusive(x)
         [] n = "W" -> objs[h].acc = "ro" \/ Others(h) # {}
         [] n = "M" -> (\E x \in Others(h) : objs[x].cells \cap Owned(h) # {}) \/ HoldersOf(h) # {}

OkUse(n, h) == CASE n = "R" -> Readable(h) [] n = "W" -> Writable(h) [] n = "M" -> Movable(h)

(***************************************************************************)
(* Calls: [op, n (new handle), h (arguments), m (mode)]                    *)
(* Needs: in which way each argument is used.                              *)
(* Mode "t" of read, write and drop: the same from another thread, while   *)
(* (read) this one reads too; whoever may use an object may do so there.   *)
(***************************************************************************)
Needs(c) ==
  LET h == c.h IN
  CASE c.op \in {"own", "buf"} -> <<>>
    [] c.op \in {"win", "block"} -> << <<IF c.m = "rw" THEN "W" ELSE "R", h[1]>> >>
    [] c.op \in {"split", "el", "refm", "slm", "write", "copy"} -> << <<"W", h[1]>> >>
    [] c.op \in {"sl", "lay", "ref", "read", "eval"} -> << <<"R", h[1]>> >>
    [] c.op = "drop" -> << <<"M", h[1]>> >>
    [] c.op = "smul" -> << <<IF c.m = "o" THEN "M" ELSE "R", h[1]>> >>
    [] c.op = "add" -> << <<IF c.m \in {"oo", "or"} THEN "M" ELSE "R", h[1]>>, <<IF c.m \in {"oo", "ro"} THEN "M" ELSE "R", h[2]>> >>
    [] c.op = "each" -> << <<"W", h[1]>>, <<"R", h[2]>> >>
    [] c.op = "matmul" -> << <<"R", h[1]>>, <<"R", h[2]>>, <<"W", h[3]>> >>

\* two uses of the same object in one call
Clash(a, b) == a[2] = b[2] /\ {a[1], b[1]} # {"R"}
SomeClash(c) == LET d == Needs(c) IN \E i, j \in 1 .. Len(d) : i < j /\ Clash(d[i], d[j])

Admissible(c) == LET d == Needs(c) IN c.op # "copy" /\ (\A i \in 1 .. Len(d) : OkUse(d[i][1], d[i][2])) /\ ~SomeClash(c)

Unsound(c) ==
  LET d == Needs(c) IN
  \/ \E i \in 1 .. Len(d) : BadUse(d[i][1], d[i][2])
  \* a second object with the same exclusive claim
  \/ c.op = "copy"
  \* moved twice is harmful only for objects with an exclusive claim
  \/ \E i, j \in 1 .. Len(d) : /\ i < j /\ Clash(d[i], d[j])
                               /\ d[i][1] = "M" /\ d[j][1] = "M" => \E x \in Closure(d[i][2]) : Exclusive(x)

(***************************************************************************)
(* Calls that can be written down at all (the kinds of the arguments fit). *)
(* Writing through a shared view or reference can be tried, and must fail. *)
(***************************************************************************)
Kinds(c) ==
  LET k(i) == objs[c.h[i]].k IN
  CASE c.op \in {"own", "buf"} -> TRUE
    [] c.op = "win" -> k(1) = "buf"
    [] c.op = "split" -> k(1) \in {"own", "win"}
    [] c.op \in {"block", "sl", "slm"} -> k(1) \in Dense
    [] c.op = "el" -> k(1) \in Dense \cup {"ref", "refm"}
    [] c.op = "refm" -> k(1) \in Matrices /\ objs[c.h[1]].acc # "ro"
    [] c.op \in {"lay", "ref", "eval", "smul"} -> k(1) \in Matrices
    [] c.op = "add" -> k(1) \in Matrices /\ k(2) \in Matrices
    [] c.op = "read" -> TRUE
    [] c.op = "write" -> k(1) \in Dense \cup {"buf", "ref", "refm", "el", "sl", "slm"}
    [] c.op = "drop" -> TRUE
    [] c.op = "copy" -> k(1) \in Dense \cup {"refm"} /\ objs[c.h[1]].acc = "rw"
    [] c.op = "each" -> k(1) \in Dense /\ k(2) \in Matrices
    [] c.op = "matmul" -> k(1) \in Dense /\ k(2) \in Dense /\ k(3) \in Dense

(***************************************************************************)
(* Effect                                                                  *)
(***************************************************************************)
Put(f, h, o) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN o ELSE f[x]]
Moved(f, S) == [x \in DOMAIN f |-> IF x \in S THEN [f[x] EXCEPT !.st = "moved"] ELSE f[x]]
MovedArgs(c) == LET d == Needs(c) IN {d[i][2] : i \in {j \in 1 .. Len(d) : d[j][1] = "M"}}
ReadArgs(c)  == LET d == Needs(c) IN {d[i][2] : i \in {j \in 1 .. Len(d) : d[j][1] = "R"}}
Quarters(n) == {<<n, q>> : q \in 1 .. 4}
First(S) == {CHOOSE x \in S : \A y \in S : x[2] <= y[2]}

Effect(c) ==
  LET n == c.n
      p == c.h[1]
      cs == objs[p].cells
      View(k, acc) == Put(objs, n, Obj(k, acc, {p}, {}, cs))
  IN CASE c.op \in {"own", "buf"} -> Put(objs, n, Obj(c.op, "own", {}, {}, Quarters(n)))
       [] c.op = "win"   -> View("win", c.m)
       [] c.op = "block" -> View("blk", c.m)
       [] c.op = "split" -> [x \in DOMAIN objs \cup {n, n + 1, n + 2, n + 3} |->
                             IF x \in DOMAIN objs THEN objs[x]
                             ELSE Obj("quad", "rw", {p}, {}, {y \in cs : y[2] = x - n + 1})]
       [] c.op = "el"    -> Put(objs, n, Obj("el", "rw", {p}, {}, First(cs)))
       [] c.op = "sl"    -> Put(objs, n, Obj("sl", "ro", {p}, {}, First(cs)))
       [] c.op = "slm"   -> Put(objs, n, Obj("slm", "rw", {p}, {}, First(cs)))
       [] c.op = "lay"   -> Put(objs, n, Obj("lay", "ro", {p}, {}, {}))
       [] c.op = "ref"   -> View("ref", "ro")
       [] c.op = "refm"  -> View("refm", "rw")
       [] c.op \in {"smul", "add"} ->
            Put(Moved(objs, MovedArgs(c)), n,
                Obj("lazy", "ro", ReadArgs(c), MovedArgs(c), UNION {objs[x].cells : x \in {c.h[i] : i \in 1 .. Len(c.h)}}))
       [] c.op = "eval"  -> Put(objs, n, Obj("own", "own", {}, {}, Quarters(n)))
       [] c.op = "drop"  -> [x \in DOMAIN objs |-> IF x \in Closure(p) THEN [objs[x] EXCEPT !.st = "gone"] ELSE objs[x]]
       [] c.op \in {"read", "write", "each", "matmul", "copy"} -> objs

Step(c) == Kinds(c) /\ Admissible(c) /\ objs' = Effect(c)
BInit == objs = [x \in {} |-> 0]

(***************************************************************************)
(* What the discipline achieves                                            *)
(***************************************************************************)
Held == {h \in Dom : There(h)}
\* nothing refers to what is gone; what somebody borrows stays where it is
NoDangling == \A h \in Held : \A x \in objs[h].src : Live(x)
\* memory of a held object has a live owner
MemoryThere == \A h \in Held : \A x \in objs[h].cells : There(x[1])
\* two objects that reach the same memory, neither made from the other, only read it
SharedReads == \A g, h \in Held :
  (g # h /\ g \notin Anc(h) \cup Closure(h) /\ h \notin Anc(g) \cup Closure(g) /\ objs[g].cells \cap objs[h].cells # {})
     => ~Exclusive(g) /\ ~Exclusive(h)
=============================================================================
