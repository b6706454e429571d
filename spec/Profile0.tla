------------------------------ MODULE Profile0 ------------------------------
(* The column a run starts from (C16). f = [T2, SNOWHEIGHT (None: absent)]. *)
EXTENDS Layers
Interp(top, grad, h, n) == top (-) ((grad (.) h) (.) RI(n))
InitialColumn(K, f) ==
    LET sh == IF f.SNOWHEIGHT = None THEN K.initial_snowheight_constant
              ELSE IF RIsNaN(f.SNOWHEIGHT) THEN Zero ELSE f.SNOWHEIGHT
        top == RMin(f.T2, K.zero_temperature)
        nI  == RTrunc(K.initial_glacier_height (/) K.initial_glacier_layer_heights)
        gh  == K.initial_glacier_layer_heights
    IN IF Zero \prec sh
       THEN LET nS == RTrunc(RMin(sh (/) R("0.1"), RI(5)))
                dT == (top (-) K.temperature_bottom) (/) (sh (+) K.initial_glacier_height)
                th == sh (/) RI(IF nS = 0 THEN 1 ELSE nS)
                dr == (K.initial_top_density_snowpack (-) K.initial_bottom_density_snowpack) (/) sh
                snow == IF nS = 0 THEN <<DryLayer(K, sh, K.initial_top_density_snowpack, top)>>
                        ELSE [n \in 1..nS |-> DryLayer(K, th, Interp(K.initial_top_density_snowpack, dr, th, n),
                                                       Interp(top, dT, th, n))]
                tl == snow[Len(snow)].T
            IN snow \o [n \in 1..nI |-> DryLayer(K, gh, K.ice_density, Interp(tl, dT, gh, n))]
       ELSE LET dT == (top (-) K.temperature_bottom) (/) K.initial_glacier_height
            IN [n \in 1..nI |-> DryLayer(K, gh, K.ice_density, Interp(top, dT, gh, n))]
=============================================================================
