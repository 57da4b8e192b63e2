----------------------------- MODULE CypherTrace -----------------------------
(* Traces of the real library against the specification.  A trace is the     *)
(* operations a program made and everything that was observed of it: what    *)
(* its statements rendered to, each time, or that there was an error.        *)
(*                                                                           *)
(* The state is the trace p, the number l of operations that were replayed   *)
(* and the values env they gave.  After the last operation every observation *)
(* has to be the one the specification allows.  What is not is printed (and  *)
(* the other traces are still checked).                                      *)
EXTENDS Api, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES p, l, env
vars == <<p, l, env>>
View == <<p, l>>

Init == p \in 1..N /\ l = 0 /\ env = <<>>

Replay == /\ l < Len(Traces[p].ops)
          /\ env' = Append(env, Apply(l + 1, Traces[p].ops[l + 1], env))
          /\ l' = l + 1
          /\ p' = p

Unsupported == { i \in DOMAIN env : env[i].k = "unsupported" }

Observe ==
  /\ l = Len(Traces[p].ops)
  /\ IF Unsupported # {} THEN PrintT("@@UNSUPPORTED " \o ToString(p) \o " " \o ToString(CHOOSE i \in Unsupported : TRUE) \o " {}")
     ELSE \A j \in DOMAIN Traces[p].outs :
            LET out == Traces[p].outs[j]
                e == Expected(env[out.h])
            IN IF \A b \in DOMAIN out.obs : out.obs[b] = e THEN TRUE ELSE 
                  PrintT("@@MISMATCH " \o ToString(p) \o " " \o ToString(out.h) \o " " \o ToJson(e))
  /\ l' = l + 1
  /\ UNCHANGED <<p, env>>

Next == Replay \/ Observe
Spec == Init /\ [][Next]_vars
=============================================================================
