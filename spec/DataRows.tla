------------------------------ MODULE DataRows ------------------------------
(***************************************************************************)
(* The rows all data specifications talk about: row r has two input        *)
(* columns and one observation.  Values repeat, are signed and unordered.  *)
(***************************************************************************)
LOCAL INSTANCE Integers
X1(r) == ((7 * r * r + 3 * r) % 13) - 6
X2(r) == ((5 * r * r * r + r) % 17) * 3 - 20
ZV(r) == ((11 * r + r * r) % 19) - 9
=============================================================================
