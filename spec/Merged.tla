------------------------------- MODULE Merged -------------------------------
(***************************************************************************)
(* Reading several datasets as one: a thread for each dataset puts what it *)
(* reads in a queue of limited size, and a consumer takes each time the    *)
(* least of the first elements of all queues.  The consumer can ask to     *)
(* stop at any time.  A dataset can fail at any time.                      *)
(*                                                                         *)
(* Checked for all interleavings: everything ends, whatever the consumer   *)
(* and datasets do; what is delivered is what all datasets have, sorted,   *)
(* up to where the consumer stops, and nothing is delivered after that.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Size,     \* Capacity of the queues
          MaxLen,   \* Maximum number of elements in each dataset
          Readers,  \* Set of readers
          Values    \* Values of the elements

\* Sorted sequences of elements
Sorted == {s \in UNION {[1..n -> Values] : n \in 0..MaxLen} : \A m \in 1..(Len(s) - 1) : s[m] <= s[m + 1]}

VARIABLES data,     \* What each dataset has
          next,     \* Number of elements read from each dataset so far
          queue,    \* Queues
          done,     \* Readers that have ended
          failed,   \* Readers that have ended with an error
          asked,    \* The readers have been asked to stop
          out,      \* What has been delivered
          pc        \* Consumer: "run", "stop", "ended", "error"
vars == <<data, next, queue, done, failed, asked, out, pc>>

Init == /\ data \in [Readers -> Sorted]
        /\ next = [r \in Readers |-> 0]
        /\ queue = [r \in Readers |-> <<>>]
        /\ done = {}
        /\ failed = {}
        /\ asked = FALSE
        /\ out = <<>>
        /\ pc = "run"

\* Put an element in the queue, when there is place; then stop if asked
Push(r) == /\ r \notin done
           /\ next[r] < Len(data[r])
           /\ Len(queue[r]) < Size
           /\ queue' = [queue EXCEPT ![r] = Append(@, data[r][next[r] + 1])]
           /\ next' = [next EXCEPT ![r] = @ + 1]
           /\ done' = IF asked THEN done \cup {r} ELSE done
           /\ UNCHANGED <<data, failed, asked, out, pc>>
End(r) == /\ r \notin done
          /\ next[r] = Len(data[r])
          /\ done' = done \cup {r}
          /\ UNCHANGED <<data, next, queue, failed, asked, out, pc>>
Fail(r) == /\ r \notin done
           /\ done' = done \cup {r}
           /\ failed' = failed \cup {r}
           /\ UNCHANGED <<data, next, queue, asked, out, pc>>

\* The consumer waits for all queues to have something, or to be at the end
CanPop == \A r \in Readers : queue[r] /= <<>> \/ r \in done
Avail == {r \in Readers : queue[r] /= <<>>}
Least == CHOOSE r \in Avail : \A s \in Avail : Head(queue[r]) < Head(queue[s]) \/ (Head(queue[r]) = Head(queue[s]) /\ r <= s)

\* Deliver an element; the consumer can ask to stop
Deliver(stop) ==
    /\ pc = "run"
    /\ CanPop
    /\ Avail /= {}
    /\ out' = Append(out, Head(queue[Least]))
    /\ queue' = [queue EXCEPT ![Least] = Tail(@)]
    /\ asked' = stop
    /\ pc' = IF stop THEN "stop" ELSE pc
    /\ UNCHANGED <<data, next, done, failed>>

\* After a stop, what is left is thrown away so that readers can end
Discard == /\ pc = "stop"
           /\ CanPop
           /\ Avail /= {}
           /\ queue' = [queue EXCEPT ![Least] = Tail(@)]
           /\ UNCHANGED <<data, next, done, failed, asked, out, pc>>

Finish == /\ pc \in {"run", "stop"}
          /\ CanPop
          /\ Avail = {}
          /\ pc' = IF failed /= {} THEN "error" ELSE "ended"
          /\ UNCHANGED <<data, next, queue, done, failed, asked, out>>

Over == pc \in {"ended", "error"} /\ UNCHANGED vars

Next == \/ \E r \in Readers : Push(r) \/ End(r) \/ Fail(r)
        \/ \E stop \in BOOLEAN : Deliver(stop)
        \/ Discard \/ Finish \/ Over

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Properties **************************************************************)

All == SortSeq(FlattenSeq(SetToSeq({<<>>}) \o [r \in 1..Cardinality(Readers) |-> data[r]]), LAMBDA a, b : a < b)

TypeOK == \A r \in Readers : Len(queue[r]) <= Size /\ next[r] <= Len(data[r])

\* What is delivered is in order, and is the beginning of everything that there is
Ordered == failed = {} => IsPrefix(out, All)
\* Everything is delivered, if not asked to stop
Complete == (pc = "ended" /\ ~asked) => out = All
\* Everything ends
Ends == <>(pc \in {"ended", "error"})
\* No thread is left running
AllEnd == pc \in {"ended", "error"} => done = Readers
\* Nothing is delivered after asking to stop
StopIsStop == [][asked => out' = out]_vars
=============================================================================
