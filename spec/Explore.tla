--------------------------------- MODULE Explore ---------------------------------
(* Exhaustive exploration: a space (file named by the environment variable SCN) is a  *)
(* sequence of slots, each slot a set of calls. Every way to take one call per slot is *)
(* run through the machine, and written out when complete.                            *)
EXTENDS Delta

Spaces == JsonDeserialize(IOEnv.SCN)
OutDir == IOEnv.OUTDIR

VARIABLES sp, br, out
evars == <<vars, sp, br, out>>

Slots == Spaces[sp]
RECURSIVE Name(_)
Name(s) == IF s = <<>> THEN "" ELSE "_" \o ToString(Head(s)) \o Name(Tail(s))

EInit == Init0 /\ sp \in 1..Len(Spaces) /\ br = << >> /\ out = << >>
EStep == /\ Len(br) < Len(Slots)
         /\ Len(br) = 0 \/ last.v # "stop"
         /\ \E k \in 1..Len(Slots[Len(br)+1]) : Do(Slots[Len(br)+1][k]) /\ br' = Append(br,k)
         /\ out' = Append(out, Delta)
         /\ sp' = sp
EWrite == /\ Len(br) > 0 /\ (Len(br) = Len(Slots) \/ last.v = "stop")
          /\ out # << >>
          /\ JsonSerialize(OutDir \o "/" \o ToString(sp) \o Name(br) \o ".json", out)
          /\ out' = << >>
          /\ UNCHANGED <<vars, sp, br>>
ENext == EStep \/ EWrite
ESpec == EInit /\ [][ENext]_evars
Steps == [][Len(br') = Len(br)+1 => StepOK(Slots[Len(br')][br'[Len(br')]])]_evars
=================================================================================
