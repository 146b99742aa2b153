--------------------------------- MODULE Equals ---------------------------------
(***************************************************************************)
(* The comparison helper (C18): given channels in pairs, it accepts        *)
(* exactly when there is an even number of them and each pair carries the  *)
(* same values.  Generates the inputs (MODE=generate) or validates what    *)
(* the helper answered (MODE=validate).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Accepts(ins) == /\ Len(ins) % 2 = 0
                /\ \A j \in 1..Len(ins) : j % 2 = 1 => ins[j] = ins[j + 1]
Lists == { <<>>, <<0>>, <<1>>, <<0, 0>>, <<1, 0>>, <<1, 2>>, <<2, 1>>, <<1, 2, 0>> }   \* 0: the zero value of the type
Generate == IOEnv.MODE = "generate"
MaxIns == atoi(IOEnv.LEN)
Traces == IF Generate THEN <<>> ELSE ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, ins, answer
vars == <<tid, ins, answer>>
RECURSIVE Code(_)
Code(l) == IF l = <<>> THEN 0 ELSE 10 * Code(SubSeq(l, 1, Len(l) - 1)) + l[Len(l)] + 1
Init == /\ tid \in (IF Generate THEN {0} ELSE 1..Len(Traces))
        /\ ins = (IF Generate THEN <<>> ELSE Traces[tid].ins)
        /\ answer = "none"
Add == /\ Generate /\ Len(ins) < MaxIns
       /\ \E l \in Lists : ins' = Append(ins, l)
       /\ PrintT(<<"SCRIPT", [j \in 1..Len(ins') |-> Code(ins'[j])]>>)
       /\ UNCHANGED <<tid, answer>>
Answer == /\ ~Generate /\ answer = "none"
          /\ LET T == Traces[tid] IN
             /\ answer' = (IF Accepts(ins) THEN "equal" ELSE "different")
             /\ IF T.answer = answer' THEN PrintT(<<"DONE", T.id>>)
                ELSE PrintT(<<"REJECT", T.id, 1, <<ins, "expected", answer', "got", T.answer>>>>)
          /\ UNCHANGED <<tid, ins>>
Next == Add \/ Answer
Spec == Init /\ [][Next]_vars
=============================================================================
