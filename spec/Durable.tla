------------------------------ MODULE Durable -------------------------------
(***************************************************************************)
(* When data is safe from a power loss.                                    *)
(*                                                                         *)
(* A segment has a data file and an index. What is written is seen by      *)
(* everyone at once, but it is surely on disk only once it is flushed: of  *)
(* the data file and of the index we keep what processes see, and all that *)
(* could be found after a power loss. Data is appended, or the file is     *)
(* replaced with one that has only the data in the index (as repack and    *)
(* conversions do).                                                        *)
(*                                                                         *)
(* A process can do these things in any order that follows three rules:     *)
(*                                                                         *)
(*   MayIndex    the index refers to data only when it is flushed          *)
(*   MayAck      an import is acknowledged when data and index are flushed *)
(*   MayReplace  a file takes the place of another when it is flushed, and *)
(*               so is the index that does not refer to what it drops      *)
(*                                                                         *)
(* and then, whenever the power is lost, all that was acknowledged is      *)
(* there, and the index never refers to data that is not (Safe). These are *)
(* the rules that DurableTrace checks on what the real code does. Without  *)
(* any of them Safe does not hold (see the Without constant).              *)
(*                                                                         *)
(* Renames are on disk no later than what is flushed after them, as with   *)
(* all file systems with a journal.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Items, Without

VARIABLES file,  \* the data file
          fset,  \* contents it can have after a power loss
          pend,  \* the same, if the last replacement is lost
          tmp,   \* the file that will replace it, or <<"none">>
          tset,
          idx,   \* items in the index
          iset,
          acked  \* items whose import was acknowledged, and not removed since
vars == <<file, fset, pend, tmp, tset, idx, iset, acked>>

NoTmp == <<"none">>
Range(s) == {s[n] : n \in 1..Len(s)}

MayIndex == fset = {file}
MayAck(i) == fset = {file} /\ iset = {idx} /\ i \in idx
MayReplace == tset = {tmp} /\ iset = {idx}

Rule(name, cond) == name = Without \/ cond

Init == /\ file = <<>> /\ fset = {<<>>} /\ pend = {}
        /\ tmp = NoTmp /\ tset = {}
        /\ idx = {} /\ iset = {{}}
        /\ acked = {}

Write(i) == /\ i \notin Range(file) /\ tmp = NoTmp
            /\ file' = Append(file, i)
            /\ fset' = fset \union {file'}
            /\ UNCHANGED <<pend, tmp, tset, idx, iset, acked>>

Flush == /\ fset' = {file} /\ pend' = {}
         /\ UNCHANGED <<file, tmp, tset, idx, iset, acked>>

Index(i) == /\ i \in Range(file) \ idx
            /\ Rule("index", MayIndex)
            /\ idx' = idx \union {i}
            /\ iset' = iset \union {idx'}
            /\ UNCHANGED <<file, fset, pend, tmp, tset, acked>>

FlushIndex == /\ iset' = {idx} /\ pend' = {}
              /\ UNCHANGED <<file, fset, tmp, tset, idx, acked>>

Ack(i) == /\ i \in Range(file) \ acked
          /\ Rule("ack", MayAck(i))
          /\ acked' = acked \union {i}
          /\ UNCHANGED <<file, fset, pend, tmp, tset, idx, iset>>

\* Whoever removes something forgets about it first
Remove(i) == /\ i \in idx
             /\ idx' = idx \ {i}
             /\ iset' = iset \union {idx'}
             /\ acked' = acked \ {i}
             /\ UNCHANGED <<file, fset, pend, tmp, tset>>

WriteTmp == /\ tmp = NoTmp
            /\ tmp' = SelectSeq(file, LAMBDA i : i \in idx)
            /\ tset' = {<<>>, tmp'}
            /\ UNCHANGED <<file, fset, pend, idx, iset, acked>>

FlushTmp == /\ tmp /= NoTmp
            /\ tset' = {tmp} /\ pend' = {}
            /\ UNCHANGED <<file, fset, tmp, idx, iset, acked>>

Replace == /\ tmp /= NoTmp
           /\ Range(tmp) = idx
           /\ Rule("replace", MayReplace)
           /\ file' = tmp /\ fset' = tset /\ pend' = pend \union fset
           /\ tmp' = NoTmp /\ tset' = {}
           /\ UNCHANGED <<idx, iset, acked>>

Next == \/ \E i \in Items : Write(i) \/ Index(i) \/ Ack(i) \/ Remove(i)
        \/ Flush \/ FlushIndex \/ WriteTmp \/ FlushTmp \/ Replace

Spec == Init /\ [][Next]_vars

\* What is found after a power loss
Safe == \A c \in fset \union pend, x \in iset :
            /\ acked \subseteq Range(c)
            /\ acked \subseteq x
            /\ x \subseteq Range(c)
=============================================================================
