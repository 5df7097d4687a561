------------------------------- MODULE AliasGen -------------------------------
(* Random arguments of the predefined samplers together with the components  *)
(* they request. With -simulate, one set of arguments per behaviour.         *)
EXTENDS Alias, TLC, Json
(* Mode: 0 plain, 1 adaptive (step size, RMSprop, noise model), 2 dense noise *)
CONSTANTS Name, Mode
VARIABLES a, st
R(S) == RandomElement(S)
Draw(u) == [name |-> Name, bs |-> R({1, 2, 3, 4, 7}), cs |-> R(1 .. 5), steps |-> R(IF Mode = 1 THEN {1, 2, 3} ELSE {1, 2, 3, 7, 12}),
            fr |-> R({2, 5, 9}), mass |-> R({0, 1}), h0 |-> R({80, 120, 160}), h1 |-> R({20, 40, 60}),
            ad |-> IF Mode = 0 \/ Name \notin MH THEN 0 ELSE 1, al |-> R({5, 10, 14}), t0 |-> R({1, 10}), ka |-> IF Name = "sggmc" THEN R({8, 9, 12}) ELSE R({6, 9, 12}), ga |-> R({4, 16}),
            temp |-> R({2, 5, 50, 1000}), burn |-> R(IF Mode = 1 /\ Name \in MH THEN {2, 5} ELSE {0, 0, 2, 5}), acc |-> R({-1, 1, 4, 6, 9, 12}),
            rms |-> IF Mode = 0 THEN 0 ELSE 1, alpha |-> R({8, 15}), lmbd |-> R({1, 4}), noise |-> IF Mode = 0 THEN 0 ELSE 1,
            diag |-> IF Mode = 1 THEN 1 ELSE 0, save |-> R({0, 1}), bar |-> R({0, 1}), its |-> R({6, 9, 12}),
            chains |-> R({1, 2, 3, 5}), mst |-> R({0, 1, 2}), pot |-> R({0, 1}), frtree |-> R({0, 1}),
            dev |-> R({0, 0, 1}), again |-> R({0, 1}), seed |-> R(0 .. 10000)]
GInit == a = [name |-> Name] /\ st = -1
GNext ==
  \/ (IF st = -1 THEN TRUE ELSE st = 0 /\ ~Valid(a)) /\ a' = Draw(0) /\ st' = 0
  \/ st = 0 /\ Valid(a) /\ PrintT(<<"BEHAVIOUR", ToJson([a |-> a, c |-> Components(a)])>>)
     /\ st' = 1 /\ UNCHANGED a
GSpec == GInit /\ [][GNext]_<<a, st>>
===============================================================================
