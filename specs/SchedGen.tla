------------------------------ MODULE SchedGen ------------------------------
(* Thread schedules: segments <<thread, steps>>; consecutive segments belong to different threads. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Threads, Steps, MaxSeg
VARIABLES s
Init == s = <<>>
Next == /\ Len(s) < MaxSeg
        /\ \E th \in Threads, k \in Steps : (IF s = <<>> THEN TRUE ELSE s[Len(s)][1] # th) /\ s' = Append(s, <<th, k>>)
Spec == Init /\ [][Next]_s
EmitHist == Len(s) < MaxSeg \/ PrintT(<<"HIST", ToJson(s)>>)
=============================================================================
