-------------------------------- MODULE Deck --------------------------------
(* What an input deck means.  A line is [k |-> key, v |-> value]; numbers are  *)
(* in millionths, -1 stands for no bound; anything else is noise.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Flags == { "GENERATE_VCG_FILE", "GENERATE_EXODUS_FILE", "GENERATE_MONITORING_POINTS", "IMPOSE_MONITORING_POINTS", "GENERATE_MESH_FROM_SEEDS" }
Numbers == { "R_MIN", "R_MAX", "LIP_CONST", "VC_ANGLE", "NUM_THREADS" }
Names == { "SIZING_FILE", "SEEDS_FILE" }
Default == [models |-> << >>, sizing |-> "", seeds |-> "", rmin |-> 0, rmax |-> -1, lip |-> 100000, ang |-> 20000000, thr |-> 1,
            vcg |-> FALSE, exo |-> FALSE, gen |-> FALSE, imp |-> FALSE, from |-> FALSE]
Set(p, ln) ==
    CASE ln.k = "INPUT_MESH_FILE" -> [p EXCEPT !.models = Append(@, ln.s)]
      [] ln.k = "SIZING_FILE" -> [p EXCEPT !.sizing = ln.s]
      [] ln.k = "SEEDS_FILE" -> [p EXCEPT !.seeds = ln.s]
      [] ln.k = "R_MIN" -> [p EXCEPT !.rmin = ln.v]
      [] ln.k = "R_MAX" -> [p EXCEPT !.rmax = ln.v]
      [] ln.k = "LIP_CONST" -> [p EXCEPT !.lip = ln.v]
      [] ln.k = "VC_ANGLE" -> [p EXCEPT !.ang = ln.v]
      [] ln.k = "NUM_THREADS" -> [p EXCEPT !.thr = ln.v]
      [] ln.k = "GENERATE_VCG_FILE" -> [p EXCEPT !.vcg = TRUE]
      [] ln.k = "GENERATE_EXODUS_FILE" -> [p EXCEPT !.exo = TRUE]
      [] ln.k = "GENERATE_MONITORING_POINTS" -> [p EXCEPT !.gen = TRUE]
      [] ln.k = "IMPOSE_MONITORING_POINTS" -> [p EXCEPT !.imp = TRUE]
      [] ln.k = "GENERATE_MESH_FROM_SEEDS" -> [p EXCEPT !.from = TRUE]
      [] OTHER -> p
RECURSIVE Fold(_, _)
Fold(d, n) == IF n = 0 THEN Default ELSE Set(Fold(d, n - 1), d[n])
Meaning(d) == Fold(d, Len(d))
(* a deck that names no model, and no seeds when it asks for them              *)
NoModel(p) == p.models = << >> /\ ~(p.from /\ p.seeds # "")
SeedsOf(p) == IF p.seeds # "" THEN p.seeds ELSE p.models[1]
(* what the program says it was asked to do                                    *)
EchoOk(p, e) ==
    IF NoModel(p) THEN e.kind = "none"
    ELSE IF p.from THEN /\ e.kind = "seeds" /\ e.seeds = SeedsOf(p) /\ e.thr = p.thr /\ (e.vcg = 1) = p.vcg /\ (e.exo = 1) = p.exo
    ELSE /\ e.kind = "model" /\ e.models = p.models /\ e.sizing = p.sizing /\ e.rmin = p.rmin /\ e.rmax = p.rmax
         /\ e.lip = p.lip /\ e.ang = p.ang /\ e.thr = p.thr
         /\ (e.vcg = 1) = p.vcg /\ (e.exo = 1) = p.exo /\ (e.gen = 1) = p.gen /\ (e.imp = 1) = p.imp
(* the files a run to its end leaves (this build writes no exodus files)       *)
FilesOk(p, f) ==
    LET has(n) == \E k \in 1..Len(f) : f[k] = n IN
    IF NoModel(p) THEN f = << >>
    ELSE IF p.from THEN has("mesh.vcg") = p.vcg /\ ~has("surface_mesh.obj")
    ELSE /\ has("seeds.csv") /\ has("surface_mesh.obj") /\ has("surface_spheres.csv")
         /\ has("mesh.vcg") = p.vcg
         /\ (~p.imp => has("monitoring_points.csv") = p.gen)
         /\ has("monitoring_points_closest_seeds.csv") = p.imp
         /\ has("model_combined.obj") = (Len(p.models) > 1)
=============================================================================
