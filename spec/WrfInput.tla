------------------------------- MODULE WrfInput -------------------------------
(***************************************************************************)
(* Converting WRF output to model input.  F holds the WRF fields by time,      *)
(* row and column; sel is the sequence of the time steps of the period.        *)
(***************************************************************************)
EXTENDS R64, Integers, Sequences
\* relative humidity from specific humidity, within 0..100 %
Rh(q, p, t) ==
    LET es == (R("379.90516") (/) p) (.) RExp((R("17.2693882") (.) (t (-) R("273.16"))) (/) (t (-) R("35.86")))
    IN RMin(R("100"), RMax(Zero, (q (.) R("100")) (/) es))
\* wind speed at 2 m from the components at height hu (neutral stratification)
Wind(u, v, hu) == RSqrt((u (.) u) (+) (v (.) v)) (.) (RLn(RI(2) (/) R("0.004")) (/) RLn(hu (/) R("0.004")))
FreshDensity(K, t, w) ==
    IF K.densification_method = "constant" THEN K.constant_density
    ELSE RMax(R("50"), (R("109") (+) (RI(6) (.) (t (-) R("273.16")))) (+) (RI(26) (.) RSqrt(w)))
\* what fell since the step before (nothing before the first one)
Fell(series, sel, i) == IF i = 1 THEN Zero ELSE series[sel[i]] (-) series[sel[i-1]]
Depth(K, swe, rho) == (swe (/) R("1000")) (.) (K.water_density (/) rho)
Mask(lu, class) == IF lu = RI(class) THEN One ELSE Zero
\* the steps of the period: the days from b to e, both included (None: all)
DayOf(m) == m \div 1440
Selected(times, b, e) ==
    SelectSeq([i \in 1..Len(times) |-> i], LAMBDA i : b = <<>> \/ (DayOf(times[i]) >= b[1] /\ DayOf(times[i]) <= e[1]))
=============================================================================
