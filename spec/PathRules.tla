------------------------------ MODULE PathRules ------------------------------
(* What happens when one of the penalties grows (more1, more2) and the other *)
(* stays (alone: the other is zero): the norm it acts on falls, and with it  *)
(* the likelihood.                                                           *)
Falls(more1, more2, alone, n1falls, n2falls, llfalls) ==
  /\ more1 => n1falls
  /\ more2 => n2falls
  /\ ((more1 \/ more2) /\ alone) => llfalls
=============================================================================
