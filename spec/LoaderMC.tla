------------------------------ MODULE LoaderMC ------------------------------
(* Instances of Loader: the loaders whose interleavings are enumerated. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxIts, Epochs, Depth, Which
VARIABLES epoch, its, hist
L(n, bs, drop, shuffle, seed, inf) ==
  [n |-> n, bs |-> bs, drop |-> drop, shuffle |-> shuffle, seed |-> seed, infinite |-> inf]
Sets == <<
  <<L(8, 4, FALSE, TRUE, 3, FALSE), L(8, 4, FALSE, TRUE, 3, TRUE)>>,
  <<L(9, 4, TRUE, TRUE, 11, FALSE), L(8, 8, FALSE, TRUE, 3, FALSE)>>,
  <<L(9, 5, FALSE, TRUE, 0, TRUE), L(9, 5, FALSE, FALSE, 0, FALSE)>>,
  <<L(8, 3, FALSE, TRUE, 5, FALSE), L(10, 4, TRUE, TRUE, 5, TRUE), L(7, 2, FALSE, TRUE, 42, FALSE)>> >>
INSTANCE Loader WITH Loaders <- Sets[Which]
=============================================================================
