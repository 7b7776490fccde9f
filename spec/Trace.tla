---------------------------------- MODULE Trace ----------------------------------
(* Runs scenarios (sequences of calls with arguments, read from the file named by    *)
(* the environment variable SCN) through the machine and writes, per scenario, what   *)
(* the machine does: verdict, observation and every changed object after every call. *)
EXTENDS Delta

Scenarios == JsonDeserialize(IOEnv.SCN)
OutDir == IOEnv.OUTDIR

VARIABLES sc, pc, out
tvars == <<vars, sc, pc, out>>

Ops == Scenarios[sc]
TInit == Init0 /\ sc \in 1..Len(Scenarios) /\ pc = 1 /\ out = << >>
TStep == /\ pc <= Len(Ops)
         /\ Do(Ops[pc])
         /\ out' = Append(out, Delta)
         /\ pc' = IF last'.v = "stop" THEN Len(Ops)+1 ELSE pc+1
         /\ sc' = sc
TWrite == /\ pc = Len(Ops)+1
          /\ JsonSerialize(OutDir \o "/" \o ToString(sc) \o ".json", out)
          /\ pc' = pc+1
          /\ UNCHANGED <<vars, sc, out>>
TNext == TStep \/ TWrite
Steps == [][pc <= Len(Ops) => StepOK(Ops[pc])]_tvars
TSpec == TInit /\ [][TNext]_tvars
=================================================================================
