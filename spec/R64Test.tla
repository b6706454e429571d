------------------------------ MODULE R64Test ------------------------------
(* The evaluator's answers on a few exactly known facts. *)
EXTENDS R64, TLC
VARIABLE x
Init == x = Zero
Next == x \prec RI(10) /\ x' = x (+) One
Spec == Init /\ [][Next]_x
Sane ==
  /\ RI(1) = One /\ RI(2) = Two /\ RI(0) = Zero /\ R("1.0") = One
  /\ R("0.1") (+) R("0.2") = R("0.30000000000000004")
  /\ (R("0.1") (.) RI(3)) # R("0.3")
  /\ One (/) RI(3) = R("0.3333333333333333")
  /\ RSub(One, R("1e-17")) = One
  /\ RIsNaN(Zero (/) Zero) /\ One (/) Zero = RInf /\ RIsNaN(RNaN)
  /\ RExp(Zero) = One /\ RLn(One) = Zero /\ RSqrt(RI(4)) = Two /\ RPow(Two, RI(10)) = RI(1024)
  /\ RCos(Zero) = One /\ RTanh(Zero) = Zero /\ RClose(RAtan(One) (.) RI(4), RPi, R("1e-15"), Zero)
  /\ RTrunc(R("-2.7")) = -2 /\ RTrunc(R("2.7")) = 2 /\ RFloor(R("-2.7")) = RI(-3)
  /\ R("-1.5") \prec Zero /\ ~(RNaN \prec Zero) /\ ~(Zero \preceq RNaN)
  /\ RSum(<<One, Two, RI(3)>>) = RI(6) /\ RMin(One, Two) = One /\ RMax(One, Two) = Two
  /\ RNeg(RI(3)) = RI(-3) /\ RAbs(RI(-3)) = RI(3)
  /\ RClose(One, R("1.0000000001"), R("1e-9"), Zero) /\ ~RClose(One, R("1.00000001"), R("1e-9"), Zero)
=============================================================================
