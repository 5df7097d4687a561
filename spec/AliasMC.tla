--------------------------------- MODULE AliasMC ---------------------------------
(***************************************************************************)
(* The wiring for all arguments: every argument of a sampler has an effect *)
(* on its components (or its execution), and only arguments of the sampler *)
(* have. The number of samples never exceeds the iterations after burn-in. *)
(* Variant drops an argument.                                              *)
(***************************************************************************)
EXTENDS Alias
CONSTANT Variant
VARIABLES a, b
Base == [name |-> "sgld", bs |-> 1, cs |-> 1, steps |-> 1, fr |-> 2, mass |-> 0, h0 |-> 80, h1 |-> 20,
         ad |-> 0, al |-> 5, t0 |-> 1, ka |-> 9, ga |-> 4, temp |-> 2, burn |-> 0, acc |-> 4,
         rms |-> 0, alpha |-> 8, lmbd |-> 1, noise |-> 0, diag |-> 0, its |-> 9, mst |-> 0]
Dom == [bs |-> {1, 2}, cs |-> {1, 3}, steps |-> {1, 2}, fr |-> {2, 5}, mass |-> {0, 1}, h0 |-> {80, 90},
        h1 |-> {20, 30}, ad |-> {0, 1}, al |-> {5, 6}, t0 |-> {1, 2}, ka |-> {9, 10}, ga |-> {4, 5},
        temp |-> {2, 3}, burn |-> {0, 2}, acc |-> {-1, 4, 5}, rms |-> {0, 1}, alpha |-> {8, 9},
        lmbd |-> {1, 2}, noise |-> {0, 1}, diag |-> {0, 1}]
(* Arguments of each sampler, in the given mode                              *)
Common == {"bs", "cs", "h0", "burn", "acc"}
Args(x) ==
  Common \cup
  CASE x.name = "sgld" -> {"h1", "rms"} \cup (IF x.rms = 1 THEN {"alpha", "lmbd"} ELSE {})
    [] x.name = "re_sgld" -> {"h1", "temp"}
    [] x.name \in MH -> {"steps", "fr", "mass", "ad"} \cup
         (IF x.ad = 1 THEN {"al", "t0", "ka", "ga"} ELSE {"h1"})
    [] x.name = "obabo" -> {"h1", "steps", "fr", "mass"}
    [] x.name = "sghmc" -> {"h1", "steps", "fr", "mass", "noise"} \cup
         (IF x.noise = 1 THEN {"diag"} ELSE {})
Comp(x) == LET c == Components(x) IN
           IF Variant = "mass" THEN [c EXCEPT !.integ.mass = 0]
           ELSE IF Variant = "last" THEN [c EXCEPT !.step.h1 = c.step.h0] ELSE c
MInit == /\ \E nm \in Names, ad, rms, noise \in {0, 1} :
              a = [Base EXCEPT !.name = nm, !.ad = ad, !.rms = rms, !.noise = noise]
         /\ b = a
(* Change one argument                                                       *)
Change == \E f \in DOMAIN Dom : \E v \in Dom[f] : b' = [a EXCEPT ![f] = v] /\ UNCHANGED a
MSpec == MInit /\ [][a = b /\ Change]_<<a, b>>
Differs == {f \in DOMAIN Dom : a[f] # b[f]}
Effective == \A f \in Differs :
  (f \in Args(a) /\ f \in Args(b)) => Comp(a) # Comp(b)
(* alpha and lmbd are handed to the (unused) adaption in any case            *)
Only == \A f \in Differs : f \notin Args(a) \cup {"alpha", "lmbd"} => Comp(a) = Comp(b)
Counts == Valid(a) => Count(a) \in 1 .. a.its - a.burn
===============================================================================
