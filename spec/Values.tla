------------------------------- MODULE Values --------------------------------
(* Values and references.

   The store holds items: objects, dictionaries made from objects and files.
   Every item has a content, named by a number.  Writing and reading hand
   the content on; an operation gives an item whose content is a function of the
   operation and the contents of its operands; a modification gives its target
   a new content.  Nothing else ever changes a content: that is what isolation
   means, and after each call all items are compared with their contents. *)
EXTENDS Num, Json

CONSTANTS Makes, Ops, Muts, Dicts, MaxItems, MaxSteps
VARIABLES items, terms, fresh, hist
vars == <<items, terms, fresh, hist>>

Rnd(S) == {RandomElement(S)}
Idx(k) == {i \in 1..Len(items) : items[i].k = k}
Room == Len(items) < MaxItems /\ Len(hist) < MaxSteps
Log(op, a, i, j, its) ==
   hist' = Append(hist, [op |-> op, a |-> a, i |-> i, j |-> j,
                         cids |-> [n \in 1..Len(its) |-> its[n].cid]])
New(op, a, i, j, k, t) ==
   LET known == {n \in 1..Len(terms) : terms[n].t = t}
       cid == IF known # {} THEN terms[CHOOSE n \in known : TRUE].c ELSE fresh
   IN /\ items' = Append(items, [k |-> k, cid |-> cid])
      /\ IF known # {} THEN UNCHANGED <<terms, fresh>>
         ELSE terms' = Append(terms, [t |-> t, c |-> fresh]) /\ fresh' = fresh + 1
      /\ Log(op, a, i, j, items')
Pass(op, i, k) ==
   /\ items' = Append(items, [k |-> k, cid |-> items[i].cid])
   /\ UNCHANGED <<terms, fresh>> /\ Log(op, 0, i, 0, items')

Init == items = <<>> /\ terms = <<>> /\ fresh = 1 /\ hist = <<>>
Make == Room /\ \E a \in Rnd(1..Makes) : New("make", a, 0, 0, "obj", <<0, a, fresh>>)
Dump == Dicts /\ Room /\ Idx("obj") # {} /\ \E i \in Rnd(Idx("obj")) : Pass("dump", i, "dict")
Load == Dicts /\ Room /\ Idx("dict") # {} /\ \E i \in Rnd(Idx("dict")) : Pass("load", i, "obj")
Write == Dicts /\ Room /\ Idx("obj") # {} /\ \E i \in Rnd(Idx("obj")) : Pass("write", i, "file")
Read == Dicts /\ Room /\ Idx("file") # {} /\ \E i \in Rnd(Idx("file")) : Pass("read", i, "obj")
Op1 == Ops > 0 /\ Room /\ Idx("obj") # {} /\ \E i \in Rnd(Idx("obj")) : \E a \in Rnd(1..Ops) :
         New("op", a, i, 0, "obj", <<a, items[i].cid, 0>>)
Op2 == Ops > 0 /\ Room /\ Idx("obj") # {} /\ \E i \in Rnd(Idx("obj")) : \E j \in Rnd(Idx("obj")) :
         \E a \in Rnd(1..Ops) :
         New("op2", a, i, j, "obj", <<a, items[i].cid, items[j].cid>>)
Mut == /\ items # <<>> /\ Len(hist) < MaxSteps
       /\ \E i \in Rnd(Idx("obj") \cup Idx("dict")) : \E a \in Rnd(1..Muts) :
          /\ items' = [items EXCEPT ![i].cid = fresh]
          /\ fresh' = fresh + 1 /\ UNCHANGED terms
          /\ Log("mut", a, i, 0, items')
Next == Make \/ Dump \/ Load \/ Write \/ Read \/ Op1 \/ Op2 \/ Mut
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* a content is never used for two things *)
Named == \A m, n \in 1..Len(terms) : m # n => terms[m].t # terms[n].t /\ terms[m].c # terms[n].c
(* only the target of a modification changes *)
Frame == [][\A n \in 1..Len(items) : items'[n] # items[n] =>
              LET h == hist'[Len(hist')] IN h.op = "mut" /\ h.i = n]_vars
(* files never change, and come back as what was written *)
RoundTrip == \A n \in 1..Len(hist) : hist[n].op \in {"dump", "load", "write", "read"} =>
   LET c == hist[n].cids IN c[Len(c)] = c[hist[n].i]
Emit == Len(hist) = MaxSteps => PrintT("@@" \o ToJson(hist))
=============================================================================
