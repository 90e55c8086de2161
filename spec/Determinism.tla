----------------------------- MODULE Determinism -----------------------------
(* Compiling, resolving and generating is a function of the text of a schema.

   A history is a sequence of events.  In an event a process answers for a
   schema: proc is "kept", a process which has answered for every earlier
   kept event of the history, or "fresh", one which starts with this event;
   dir is the directory (import path) the files lie in.  The answer is the
   list of errors and warnings with their positions, in order, and the
   generated files.  known remembers the first answer for each schema:
   whatever happened before or happens elsewhere, every further one must be
   the same.                                                               *)
EXTENDS Naturals, Sequences

Unknown == "?"
Event(inputs, dirs) == [input : inputs, dir : dirs, proc : {"kept", "fresh"}]

\* the answer of an event is acceptable, and what is known then
Agrees(known, e, answer) == known[e.input] \in {Unknown, answer}
Learn(known, e, answer) == [known EXCEPT ![e.input] = IF @ = Unknown THEN answer ELSE @]
=============================================================================
