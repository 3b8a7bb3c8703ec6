----------------------------- MODULE LexMachine -----------------------------
(* Tokenization as a state machine: lexemes are tried one at a time, each    *)
(* match emits or discards a token and may change the state stack.           *)
EXTENDS Lexer, Json, IOUtils

Groups == TLCEval(ndJsonDeserialize(IOEnv.VERIF_GROUPS))
Cases == TLCEval(ndJsonDeserialize(IOEnv.VERIF_CASES))  \* [g, code]

VARIABLES k, p, toks, stk, set, li, out
\* set: index of the lexemes being consulted; out: <<>> while running
vars == <<k, p, toks, stk, set, li, out>>

Def == Groups[Cases[k].g].lexer
Eof == Groups[Cases[k].g].eof
Code == Cases[k].code
Lexes == Def.states[set][2]

Init == /\ k \in 1..Len(Cases) /\ p = 0 /\ toks = <<>> /\ stk = <<>>
        /\ set = StateIndex(Def, Def.dflt) /\ li = 1
        /\ out = IF Code = <<>> THEN <<0, <<<<Eof, 0, 0>>>>>> ELSE <<>>
Attempt == Consume(Lexes[li], Code, p, toks, stk)
Running == out = <<>>

Miss2 == /\ Running /\ li <= Len(Lexes) /\ ~Attempt.h /\ ~Attempt.pan
         /\ li' = li + 1 /\ stk' = Attempt.st
         /\ UNCHANGED <<k, p, toks, set, out>>
UserError == /\ Running /\ li <= Len(Lexes) /\ Attempt.pan
             /\ out' = <<3>> /\ UNCHANGED <<k, p, toks, stk, set, li>>
NoLexeme == /\ Running /\ li > Len(Lexes)
            /\ out' = <<1, p>> /\ UNCHANGED <<k, p, toks, stk, set, li>>
Emit == /\ Running /\ li <= Len(Lexes) /\ Attempt.h
        /\ LET ts == Append(toks, <<Attempt.t, Attempt.s, Attempt.e>>)
               next == StateIndex(Def, TopState(Def, Attempt.st))
           IN /\ toks' = ts /\ p' = Attempt.e /\ stk' = Attempt.st
              /\ IF Attempt.e = Len(Code)
                 THEN out' = <<0, Append(ts, <<Eof, Attempt.e, Attempt.e>>)>> /\ UNCHANGED <<set, li>>
                 ELSE IF next = 0 THEN out' = <<3>> /\ UNCHANGED <<set, li>>
                 ELSE set' = next /\ li' = 1 /\ UNCHANGED out
        /\ UNCHANGED k
Finished == ~Running /\ UNCHANGED vars
Next == Finished \/ Miss2 \/ UserError \/ NoLexeme \/ Emit
Spec == Init /\ [][Next]_vars

(* The machine computes Tokenize. *)
Refines == Running \/ out = Tokenize(Def, Eof, Code)
(* Tokens tile the text up to the current offset. *)
Tiling == /\ \A n \in 1..Len(toks) : toks[n][2] < toks[n][3]
          /\ \A n \in 1..(Len(toks) - 1) : toks[n][3] = toks[n + 1][2]
          /\ toks = <<>> => p = 0
          /\ toks # <<>> => toks[1][2] = 0 /\ toks[Len(toks)][3] = p
          /\ p <= Len(Code)
          /\ out # <<>> /\ out[1] = 0 => Tiles(out[2], Eof, Len(Code))
(* An error names the first offset where no lexeme yields a token. *)
ErrorAt == out # <<>> /\ out[1] = 1 => out[2] = p /\ (toks = <<>> => p = 0)
(* Consulted lexemes are those of the state on top of the stack when the     *)
(* current offset was reached (discarded matches may change the stack since).*)
StateOk == Running => set \in 1..Len(Def.states)
(* There is always a next step (no deadlock), and no endless run of steps. *)
Terminates == []<><<TRUE>>_vars => <>(out # <<>>)
=============================================================================
