------------------------------- MODULE Heat -------------------------------
(* Explicit heat conduction on the non-uniform grid (C06). *)
EXTENDS Layers

Gap(c, n)   == (c[n].h (+) c[n+1].h) (/) Two                 \* centre n to centre n+1
RECURSIVE SubSteps(_, _, _, _, _, _)
\* T: temperatures; g, k: gaps and mean diffusivities between n and n+1
SubSteps(T, g, k, dtmax, t, dt) ==
    IF ~(t \prec dt) THEN T
    ELSE LET s == RMin(dtmax, dt (-) t)
             N == Len(T)
             T1 == Now([n \in 1..N |->
                     IF n = 1 \/ n = N THEN T[n]
                     ELSE T[n] (+) (((((k[n] (.) s) (.) (T[n+1] (-) T[n])) (/) g[n])
                                     (-) (((k[n-1] (.) s) (.) (T[n] (-) T[n-1])) (/) g[n-1]))
                                    (/) (R("0.5") (.) (g[n-1] (+) g[n])))])
         IN IF Len(T1) = N THEN SubSteps(T1, g, k, dtmax, t (+) s, dt) ELSE T1
RECURSIVE MinOf(_, _)
MinOf(s, n) == IF n = 1 THEN s[1] ELSE RMin(MinOf(s, n-1), s[n])
StableStep(K, c) ==
    LET N == Len(c)
        D == Now([n \in 1..N |-> Diffusivity(K, c[n])])
    IN R("0.8") (.) (MinOf(Now([n \in 1..(N-1) |-> RPow(Gap(c, n), Two) (/) ((D[n] (+) D[n+1]) (/) Two)]), N-1) (/) Two)
FewSubSteps(K, c, dt, most) == Len(c) < 3 \/ dt \prec (StableStep(K, c) (.) RI(most))
Conduct(K, c, dt) ==
    LET N == Len(c)
        D == Now([n \in 1..N |-> Diffusivity(K, c[n])])
        g == Now([n \in 1..(N-1) |-> Gap(c, n)])
        k == Now([n \in 1..(N-1) |-> (D[n] (+) D[n+1]) (/) Two])
        lim == Now([n \in 1..(N-1) |-> RPow(g[n], Two) (/) k[n]])
        dtmax == R("0.8") (.) (MinOf(lim, N-1) (/) Two)
        T == SubSteps([n \in 1..N |-> c[n].T], g, k, dtmax, Zero, dt)
    IN IF N < 3 THEN c ELSE [n \in 1..N |-> [c[n] EXCEPT !.T = T[n]]]
RECURSIVE MaxT(_, _)
MaxT(c, n) == IF n = 1 THEN c[1].T ELSE RMax(MaxT(c, n-1), c[n].T)
RECURSIVE MinT(_, _)
MinT(c, n) == IF n = 1 THEN c[1].T ELSE RMin(MinT(c, n-1), c[n].T)
ConductionLaw(c, d) ==
    [ends      |-> Len(c) = Len(d) /\ d[1].T = c[1].T /\ d[Len(d)].T = c[Len(c)].T,
     maximum   |-> \A n \in 1..Len(d) : /\ d[n].T \preceq (MaxT(c, Len(c)) (+) R("1e-7"))
                                        /\ (MinT(c, Len(c)) (-) R("1e-7")) \preceq d[n].T,
     untouched |-> SameBut(c, d, LAMBDA a, b : a.h = b.h /\ a.w = b.w /\ a.i = b.i)]
===========================================================================
