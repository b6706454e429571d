-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* The result file: which variables it holds and how they are described.    *)
(* Strings beyond ASCII are written with backslash escapes.                  *)
(***************************************************************************)
EXTENDS R64, Sequences
LOCAL Elems(s) == {s[j] : j \in 1..Len(s)}
LOCAL WM2 == "W m\\u207b\\xb2"
StaticTable == [HGT |-> <<"m", "Elevation">>, MASK |-> <<"boolean", "Glacier mask">>,
                SLOPE |-> <<"degrees", "Terrain slope">>, ASPECT |-> <<"degrees", "Aspect of slope">>]
InputTable == [T2 |-> <<"K", "Air temperature at 2 m">>, RH2 |-> <<"%", "Relative humidity at 2 m">>,
    U2 |-> <<"m s\\u207b\\xb9", "Wind velocity at 2 m">>, PRES |-> <<"hPa", "Atmospheric pressure">>,
    G |-> <<WM2, "Incoming shortwave radiation">>, RRR |-> <<"mm", "Total precipitation">>, SNOWFALL |-> <<"m", "Snowfall">>,
    N |-> <<"-", "Cloud fraction">>, LWin |-> <<WM2, "Incoming longwave radiation">>]
ResultTable == [RAIN |-> <<"mm", "Liquid precipitation">>, SNOWFALL |-> <<"m w.e.", "Snowfall">>,
    LWin |-> <<WM2, "Incoming longwave radiation">>, LWout |-> <<WM2, "Outgoing longwave radiation">>,
    H |-> <<WM2, "Sensible heat flux">>, LE |-> <<WM2, "Latent heat flux">>, B |-> <<WM2, "Ground heat flux">>,
    QRR |-> <<WM2, "Rain heat flux">>, surfMB |-> <<"m w.e.", "Surface mass balance">>, MB |-> <<"m w.e.", "Mass balance">>,
    Q |-> <<"m w.e.", "Runoff">>, SNOWHEIGHT |-> <<"m", "Snowheight">>, TOTALHEIGHT |-> <<"m", "Total domain height">>,
    TS |-> <<"K", "Surface temperature">>, ALBEDO |-> <<"-", "Albedo">>, LAYERS |-> <<"-", "Number of layers">>,
    ME |-> <<WM2, "Available melt energy">>, intMB |-> <<"m w.e.", "Internal mass balance">>,
    EVAPORATION |-> <<"m w.e.", "Evaporation">>, SUBLIMATION |-> <<"m w.e.", "Sublimation">>,
    CONDENSATION |-> <<"m w.e.", "Condensation">>, DEPOSITION |-> <<"m w.e.", "Deposition">>,
    REFREEZE |-> <<"m w.e.", "Refreezing">>, subM |-> <<"m w.e.", "Subsurface melt">>, Z0 |-> <<"m", "Roughness length">>,
    surfM |-> <<"m w.e.", "Surface melt">>, MOL |-> <<"m", "Monin Obukhov length">>,
    LAYER_HEIGHT |-> <<"m", "Layer height">>, LAYER_RHO |-> <<"kg m^-3", "Layer density">>, LAYER_T |-> <<"K", "Layer temperature">>,
    LAYER_LWC |-> <<"kg m^-2", "layer liquid water content">>, LAYER_CC |-> <<"J m^-2", "Cold content">>,
    LAYER_POROSITY |-> <<"-", "Porosity">>, LAYER_ICE_FRACTION |-> <<"-", "Layer ice fraction">>,
    LAYER_IRREDUCIBLE_WATER |-> <<"-", "Irreducible water">>, LAYER_REFREEZE |-> <<"m w.e.", "Refreezing">>]
\* the forcing is always written as it was supplied
Selected(run) == (Elems(run.atm) \ {"T2", "RH2", "U2", "RRR", "N", "G", "PRES"}) \cup Elems(run.internal)
Layered(run)  == IF run.conf.full_field THEN {"LAYER_" \o v : v \in Elems(run.full)} ELSE {}

\* global attributes: where each of them comes from
LOCAL FromConf == [Start_from_restart_file |-> "restart", Stake_evaluation |-> "stake_evaluation", WRF_simulation |-> "WRF",
    Slurm_use |-> "slurm_use", Full_field |-> "full_field",
    Force_use_TP |-> "force_use_TP", Force_use_N |-> "force_use_N", Tile_of_glacier_of_interest |-> "tile"]
LOCAL FromConst == [Time_step_input_file_seconds |-> "dt", Max_layers |-> "max_layers", Z_measurement_height |-> "z",
    Stability_correction |-> "stability_correction", Albedo_method |-> "albedo_method", Densification_method |-> "densification_method",
    Penetrating_method |-> "penetrating_method", Roughness_method |-> "roughness_method",
    Saturation_water_vapour_method |-> "saturation_water_vapour_method", Initial_snowheight |-> "initial_snowheight_constant",
    Initial_snow_layer_heights |-> "initial_snow_layer_heights", Initial_glacier_height |-> "initial_glacier_height",
    Initial_glacier_layer_heights |-> "initial_glacier_layer_heights", Initial_top_density_snowpack |-> "initial_top_density_snowpack",
    Initial_bottom_density_snowpack |-> "initial_bottom_density_snowpack", Temperature_bottom |-> "temperature_bottom",
    Const_init_temp |-> "const_init_temp", Center_snow_transfer_function |-> "center_snow_transfer_function",
    Spread_snow_transfer_function |-> "spread_snow_transfer_function",
    Multiplication_factor_for_RRR_or_SNOWFALL |-> "mult_factor_RRR", Minimum_snow_layer_height |-> "minimum_snow_layer_height",
    Minimum_snowfall |-> "minimum_snowfall", Remesh_method |-> "remesh_method", First_layer_height_log_profile |-> "first_layer_height",
    Layer_stretching_log_profile |-> "layer_stretching", Merge_max |-> "merge_max",
    Density_threshold_merging |-> "density_threshold_merging", Temperature_threshold_merging |-> "temperature_threshold_merging",
    Density_fresh_snow |-> "constant_density", Albedo_fresh_snow |-> "albedo_fresh_snow", Albedo_firn |-> "albedo_firn",
    Albedo_ice |-> "albedo_ice", Albedo_mod_snow_aging |-> "albedo_mod_snow_aging", Albedo_mod_snow_depth |-> "albedo_mod_snow_depth",
    Roughness_fresh_snow |-> "roughness_fresh_snow", Roughness_ice |-> "roughness_ice", Roughness_firn |-> "roughness_firn",
    Aging_factor_roughness |-> "aging_factor_roughness", Snow_ice_threshold |-> "snow_ice_threshold",
    lat_heat_melting |-> "lat_heat_melting", lat_heat_vaporize |-> "lat_heat_vaporize", lat_heat_sublimation |-> "lat_heat_sublimation",
    spec_heat_air |-> "spec_heat_air", spec_heat_ice |-> "spec_heat_ice", spec_heat_water |-> "spec_heat_water",
    k_i |-> "k_i", k_w |-> "k_w", k_a |-> "k_a", water_density |-> "water_density", ice_density |-> "ice_density",
    air_density |-> "air_density", sigma |-> "sigma", zero_temperature |-> "zero_temperature",
    Surface_emission_coeff |-> "surface_emission_coeff"]
AttrNames == DOMAIN FromConf \cup DOMAIN FromConst \cup {"Compression_level"}
AttrValue(K, conf, a) ==
    IF a = "Compression_level" THEN conf.compression_level
    ELSE IF a \in DOMAIN FromConf THEN (IF conf[FromConf[a]] THEN "True" ELSE "False")
    ELSE K[FromConst[a]]
=============================================================================
