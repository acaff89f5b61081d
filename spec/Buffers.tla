------------------------------- MODULE Buffers -------------------------------
(* Histories of buffers: what each of them holds, whose memory it is in, and   *)
(* that all memory is given back. Resources 0 and 2 are equal: they can release*)
(* each other's memory; group 0. Resource 1 is group 1.                        *)
EXTENDS Hist, FiniteSets, SequencesExt
Group(r) == IF r = 1 THEN 1 ELSE 0
Empty == [there |-> FALSE, known |-> TRUE, r |-> 0, v |-> <<>>]
Holding(r, v) == [there |-> TRUE, known |-> TRUE, r |-> r, v |-> v]
Slots == 1..3
Start(ob) == [i \in Slots |-> Empty]

(* moved-from: still a buffer, but its content is not specified *)
Moved(b) == [b EXCEPT !.known = FALSE, !.v = <<>>]

Effect(s, op) ==
  LET i == op.i  j == op.j IN
  CASE op.f \in {"ptr", "range", "second", "view", "build"} -> [s EXCEPT ![i] = Holding(op.r, op.v)]
    [] op.f = "new"    -> [s EXCEPT ![i] = Holding(op.r, <<>>)]
    [] op.f = "copy"   -> [s EXCEPT ![i] = s[j]]
    [] op.f = "copyr"  -> [s EXCEPT ![i] = [s[j] EXCEPT !.r = op.r]]
    [] op.f = "move"   -> [s EXCEPT ![i] = s[j], ![j] = Moved(s[j])]
    [] op.f = "assign" -> [s EXCEPT ![i] = [s[j] EXCEPT !.r = s[i].r]]
    [] op.f = "massign" -> IF i = j THEN [s EXCEPT ![i] = Moved(s[i])]
                           ELSE [s EXCEPT ![i] = [s[j] EXCEPT !.r = s[i].r], ![j] = Moved(s[j])]
    \* release j's memory, and let i adopt it
    [] op.f = "adopt"  -> [s EXCEPT ![i] = s[j], ![j] = Holding(s[j].r, <<>>)]
    [] op.f = "drop"   -> [s EXCEPT ![i] = Empty]
    [] op.f = "end"    -> [k \in Slots |-> Empty]

(* out: [threw, errors, outstanding blocks, slots: [there, size, content, read, owner]] *)
SlotOk(b, o) ==
  /\ o.there = b.there
  /\ b.there => /\ o.read = o.content /\ o.size = Len(o.content)
                /\ b.known => o.content = b.v
                /\ o.size > 0 => o.owner = Group(b.r)
Step(s, op, out) ==
  LET t == IF out.threw THEN s ELSE Effect(s, op)
      live == {k \in Slots : t[k].there} IN
  [st |-> t,
   ok |-> /\ out.threw => op.fault           \* only where memory ran out
          /\ out.errors = 0
          /\ \A k \in Slots : SlotOk(t[k], out.slots[k])
          /\ live = {} => out.blocks = 0      \* everything has been given back
          /\ out.blocks <= Cardinality(live),
   expect |-> t]
Ok(s) == \A k \in Slots : ~s[k].there => s[k] = Empty
=============================================================================
