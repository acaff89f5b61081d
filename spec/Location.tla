------------------------------ MODULE Location ------------------------------
(* Locations of positions and the lines they are on: what each call of the     *)
(* library on an input shows.                                                  *)
EXTENDS Lines, Calls, SequencesExt

Expectation(ob) ==
  LET n == Len(ob.i)
      L == [p \in 0..n |-> Loc(ob.k, ob.e, ob.i, p)]
      \* the location found from an anchor is the location found from the beginning
      anchored == [p \in 0..n |-> [q \in L[p].pos..n |-> From(ob.k, ob.e, ob.i, q, <<L[p].line, L[p].lb, L[p].lb>>, 1)]]
      ok == \A p \in 0..n : \A q \in L[p].pos..n : anchored[p][q] = L[q]
      each(p) == Show(L[p])
                 \o FlattenSeq([q \in 1..(n + 1 - L[p].pos) |-> Show(L[L[p].pos + q - 1])])
                 \o FlattenSeq([q \in 1..(n + 1 - L[p].pos) |-> Annot(ob.k, ob.e, ob.i, L[p], L[p].pos + q - 1)])
                 \o FlattenSeq([q \in 1..(n + 3 - L[p].pos) |-> Annot(ob.k, ob.e, ob.i, L[p], L[p].pos + q - 1)])
                 \o [q \in 1..(n + 1) |-> Compare(L[p], L[q - 1])]
  IN IF ok THEN <<1, 1, 0>> \o Show(L[n]) \o FlattenSeq([p \in 1..(n + 1) |-> each(p - 1)]) ELSE <<-99>>
=============================================================================
