------------------------------ MODULE Threads -------------------------------
(***************************************************************************)
(* Threads.  A call is not atomic: a thread splits the text it was given   *)
(* character by character in a scratch and then enters the piece into the  *)
(* tree of its own maker (here: a set), while other threads do the same.   *)
(* Own = TRUE: a scratch per call, as the package does it; with one shared  *)
(* scratch (Own = FALSE) Answers fails.  IOEnv.UNI: [texts].               *)
(***************************************************************************)
EXTENDS Pieces, Json, IOUtils

CONSTANT Own
VARIABLES un, pc, text, pos, scratch, tree, got
vars == <<un, pc, text, pos, scratch, tree, got>>

Universes == JsonDeserialize(IOEnv.UNI)
Texts == {Universes[un].texts[i] : i \in 1..Len(Universes[un].texts)}
Thread == 1..2
Slot(t) == IF Own THEN t ELSE 1

Init == /\ un \in 1..Len(Universes)
        /\ pc = [t \in Thread |-> "idle"] /\ text = [t \in Thread |-> <<>>]
        /\ pos = [t \in Thread |-> 0] /\ scratch = [t \in Thread |-> <<>>]
        /\ tree = [t \in Thread |-> {}] /\ got = [t \in Thread |-> {}]

\* a call begins: the scratch is cleared
Begin(t) == /\ pc[t] = "idle" /\ \E s \in Texts \ got[t] :
                 /\ text' = [text EXCEPT ![t] = s]
                 /\ got' = [got EXCEPT ![t] = @ \cup {s}]
            /\ pc' = [pc EXCEPT ![t] = "split"] /\ pos' = [pos EXCEPT ![t] = 1]
            /\ scratch' = [scratch EXCEPT ![Slot(t)] = <<>>]
            /\ UNCHANGED <<un, tree>>

\* one character: it goes on with the last run or opens a new one
Feed(t) == /\ pc[t] = "split" /\ pos[t] <= Len(text[t])
           /\ LET c == text[t][pos[t]]
                  rs == scratch[Slot(t)]
                  n == Len(rs)
                  new == n = 0 \/ rs[n].fz # {RuleOf(c)}
              IN  scratch' = [scratch EXCEPT ![Slot(t)] =
                     IF new THEN Append(rs, [raw |-> <<c>>, fz |-> {RuleOf(c)}])
                     ELSE [rs EXCEPT ![n].raw = Append(@, c)]]
           /\ pos' = [pos EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<un, pc, text, tree, got>>

\* the call ends: the runs are written in normal form and entered
End(t) == /\ pc[t] = "split" /\ pos[t] > Len(text[t])
          /\ LET rs == scratch[Slot(t)]
                 runs == [i \in 1..Len(rs) |->
                            [t |-> RunText(CHOOSE r \in rs[i].fz : TRUE, rs[i].raw), len |-> Len(rs[i].raw), fz |-> rs[i].fz]]
             IN  tree' = [tree EXCEPT ![t] = @ \cup {[s |-> text[t], runs |-> runs]}]
          /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ UNCHANGED <<un, text, pos, scratch, got>>

Next == \E t \in Thread : Begin(t) \/ Feed(t) \/ End(t)
Spec == Init /\ [][Next]_vars

\* C26: whatever the schedule, an answer is that of the call alone
Answers == \A t \in Thread : \A x \in tree[t] : x.runs = RunsOf(x.s)
\* and a thread's maker holds what that thread loaded, nothing else
Apart == \A t \in Thread : {x.s : x \in tree[t]} = got[t] \ (IF pc[t] = "idle" THEN {} ELSE {text[t]})
=============================================================================
