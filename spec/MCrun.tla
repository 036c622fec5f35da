------------------------------- MODULE MCrun -------------------------------
(* Constant definitions that TLC configuration files cannot express. *)
EXTENDS MCDPPIR
Q0 == <<0>>
Q1 == <<1>>
Q2 == <<2>>
Q3 == <<3>>
Q11 == <<1, 1>>
Q02 == <<0, 2>>
Q12 == <<1, 2>>
Q111 == <<1, 1, 1>>
=============================================================================
