-------------------------------- MODULE Shell --------------------------------
(* Histories of an interactive shell: inputs and their readers, markers,       *)
(* lexemes and messages, on a prompt whose user types the text ob.text. The    *)
(* prompt closes when an attempt to read finds the end of the text, or (eager) *)
(* as soon as the last character has been read.                                *)
EXTENDS Hist, SequencesExt
NL == 10
\* the user's text; what of it has been read by the input (from, upto]
Src == Obs[hist].text
\* where its newlines are (checked once at the start)
Lines == Obs[hist].nl
Start(ob) == IF Range(ob.nl) # {k \in 1..Len(ob.text) : ob.text[k] = NL} THEN Assert(FALSE, "newlines") ELSE [from |-> 0, upto |-> 0, open |-> ob.text # <<>> \/ ~ob.eager, eager |-> ob.eager, plain |-> ob.plain,
              at |-> [i \in 1..3 |-> -1], log |-> <<>>]
Length(s) == s.upto - s.from
\* what the prompt shows: a program's own prompt, or the default one on standard output
Primary(s)  == IF s.plain THEN <<62, 32>> ELSE <<80>>
Continue(s) == IF s.plain THEN <<46, 32>> ELSE <<67>>
End(s)      == IF s.plain THEN <<10>> ELSE <<69>>
Message(s, v) == IF s.plain THEN v \o (IF v # <<>> /\ Last(v) # NL THEN <<NL>> ELSE <<>>) ELSE <<91>> \o v \o <<93>>
Say(s, v) == [s EXCEPT !.log = s.log \o v]

LineEnd(k) == LET after == SelectSeq(Lines, LAMBDA x : x >= k) IN IF after = <<>> THEN Len(Src) ELSE Head(after)
\* one attempt to read a line; the prompt announces the end when there is no complete line
ReadLine(s) ==
  LET n == LineEnd(s.upto + 1)
      whole == n > s.upto /\ Src[n] = NL
      t == [s EXCEPT !.upto = n, !.open = IF ~whole \/ (s.eager /\ n = Len(Src)) THEN FALSE ELSE s.open] IN
  IF whole THEN t ELSE Say(t, End(s))
\* a reader that needs the character at its position, or has to know that there is none
Peek(s, i) ==
  IF s.at[i] < Length(s) \/ ~s.open THEN s
  ELSE ReadLine(Say(s, Continue(s)))
There(s, i) == s.at[i] < Length(s)
Char(s, i) == IF There(s, i) THEN Src[s.from + s.at[i] + 1] ELSE -1
\* read up to n characters: how many there were and digests of them
RECURSIVE Advance(_, _, _, _)
Advance(s, i, n, got) ==
  IF n = 0 THEN [s |-> s, v |-> got]
  ELSE LET t == Peek(s, i) IN
       IF ~There(t, i) THEN [s |-> t, v |-> got]
       \* all that is there already at once
       ELSE LET m == IF n < Length(t) - t.at[i] THEN n ELSE Length(t) - t.at[i] IN
            Advance([t EXCEPT !.at[i] = @ + m], i, n - m, got \o SubSeq(Src, t.from + t.at[i] + 1, t.from + t.at[i] + m))
Digest(v) == <<Len(v), FoldLeft(LAMBDA h, u : ((h * 31) + (u % 65521)) % 65521, 7, v)>>
\* between the two characters of a newline one is still at its first
Location(s, p) ==
  LET q == s.from + p
      k == IF p > 0 /\ q < s.upto /\ Src[q] = 13 /\ Src[q + 1] = NL THEN q - 1 ELSE q
      before == SelectSeq(Lines, LAMBDA x : x > s.from /\ x <= k) IN
  <<1 + Len(before), 1 + k - (IF before = <<>> THEN s.from ELSE Last(before))>>
Piece(s, i, j) == SubSeq(Src, s.from + s.at[i] + 1, s.from + s.at[j])

\* [state, result] of an operation
Effect(s, op) ==
  LET i == op.i  j == op.j IN
  CASE op.f = "input" -> \* a new input forgets the text of the previous one
         [s |-> ReadLine(Say([s EXCEPT !.from = s.upto, !.at = [k \in 1..3 |-> IF k = i THEN 0 ELSE -1]], Primary(s))), v |-> <<>>]
    [] op.f = "copy"  -> [s |-> [s EXCEPT !.at[i] = s.at[j]], v |-> <<>>]      \* also a marker and resetting to it
    [] op.f = "peek"  -> LET t == Peek(s, i) IN [s |-> t, v |-> <<Char(t, i)>>]
    [] op.f = "advance" -> LET a == Advance(s, i, op.n, <<>>) IN [s |-> a.s, v |-> Digest(a.v)]
    [] op.f = "where" -> [s |-> s, v |-> Location(s, s.at[i])]
    [] op.f = "same"  -> [s |-> s, v |-> <<IF s.at[i] = s.at[j] THEN 1 ELSE 0>>]
    [] op.f = "lexeme" -> [s |-> s, v |-> Digest(Piece(s, i, j))]
    [] op.f = "say"   -> [s |-> Say(s, Message(s, op.v)), v |-> <<>>]
    [] op.f = "echo"  -> [s |-> Say(s, Message(s, Piece(s, i, j))), v |-> <<>>]
Step(s, op, out) ==
  LET e == Effect([s EXCEPT !.log = <<>>], op)
      want == [v |-> e.v, open |-> e.s.open, log |-> e.s.log] IN
  [st |-> e.s, ok |-> out.v = want.v /\ out.open = want.open /\ out.log = want.log, expect |-> want]
Ok(s) == /\ \A i \in 1..3 : s.at[i] <= Length(s)
         /\ ~s.open => s.upto = Len(Src)
=============================================================================
