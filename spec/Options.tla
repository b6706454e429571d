------------------------------- MODULE Options -------------------------------
(* The parameterisations that exist; anything else is refused.               *)
Known == [stability_correction |-> {"Ri", "MO"}, albedo_method |-> {"Oerlemans98", "Bougamont05"},
          densification_method |-> {"Boone", "Vionnet", "empirical", "constant"}, penetrating_method |-> {"Bintanja95"},
          roughness_method |-> {"Moelg12"}, sfc_temperature_method |-> {"L-BFGS-B", "SLSQP", "Newton", "Secant"}]
BadOption(K) == \E o \in DOMAIN Known : K[o] \notin Known[o]
=============================================================================
