------------------------------ MODULE Settings ------------------------------
EXTENDS TLC
(***************************************************************************)
(* The options of the configuration files: table by table, with their types:  *)
(* b boolean, i integer, f number, s text, l list of texts.                   *)
(***************************************************************************)
ConfigOptions ==
    [ SIMULATION_PERIOD |->
        [time_start |-> "s", time_end |-> "s"],
      FILENAMES |->
        [data_path |-> "s", input_netcdf |-> "s", output_prefix |-> "s"],
      RESTART |->
        [restart |-> "b"],
      STAKE_DATA |->
        [stake_evaluation |-> "b", stakes_loc_file |-> "s", stakes_data_file |-> "s", eval_method |-> "s", 
          obs_type |-> "s"],
      DIMENSIONS |->
        [WRF |-> "b", WRF_X_CSPY |-> "b", northing |-> "s", easting |-> "s"],
      COMPRESSION |->
        [compression_level |-> "i"],
      PARALLELIZATION |->
        [slurm_use |-> "b", workers |-> "i", local_port |-> "i"],
      FULL_FIELDS |->
        [full_field |-> "b"],
      FORCINGS |->
        [force_use_TP |-> "b", force_use_N |-> "b"],
      OUTPUT_VARIABLES |->
        [output_atm |-> "s", output_internal |-> "s", output_full |-> "s"] ]
    \* (SUBSET is a reserved word of TLA+)
    @@ ("SUBSET" :>
        [tile |-> "b", xstart |-> "i", xend |-> "i", ystart |-> "i", yend |-> "i"])
ConstantsOptions ==
    [ GENERAL |->
        [dt |-> "i", max_layers |-> "i", z |-> "f"],
      PARAMETERIZATIONS |->
        [stability_correction |-> "s", albedo_method |-> "s", densification_method |-> "s", 
          penetrating_method |-> "s", roughness_method |-> "s", saturation_water_vapour_method |-> "s", 
          thermal_conductivity_method |-> "s", sfc_temperature_method |-> "s"],
      INITIAL_CONDITIONS |->
        [initial_snowheight_constant |-> "f", initial_snow_layer_heights |-> "f", 
          initial_glacier_height |-> "f", initial_glacier_layer_heights |-> "f", 
          initial_top_density_snowpack |-> "f", initial_bottom_density_snowpack |-> "f", 
          temperature_bottom |-> "f", const_init_temp |-> "f", zlt1 |-> "f", zlt2 |-> "f"],
      PRECIPITATION |->
        [center_snow_transfer_function |-> "f", spread_snow_transfer_function |-> "i", mult_factor_RRR |-> "f", 
          minimum_snow_layer_height |-> "f", minimum_snowfall |-> "f"],
      REMESHING |->
        [remesh_method |-> "s", first_layer_height |-> "f", layer_stretching |-> "f", merge_max |-> "i", 
          density_threshold_merging |-> "i", temperature_threshold_merging |-> "f"] ]
    \* (CONSTANTS is a reserved word of TLA+)
    @@ ("CONSTANTS" :>
        [constant_density |-> "f", albedo_fresh_snow |-> "f", albedo_firn |-> "f", albedo_ice |-> "f", 
          albedo_mod_snow_aging |-> "i", albedo_mod_snow_depth |-> "i", t_star_wet |-> "i", t_star_dry |-> "i", 
          t_star_K |-> "i", t_star_cutoff |-> "f", roughness_fresh_snow |-> "f", roughness_ice |-> "f", 
          roughness_firn |-> "f", aging_factor_roughness |-> "f", snow_ice_threshold |-> "f", 
          lat_heat_melting |-> "f", lat_heat_vaporize |-> "f", lat_heat_sublimation |-> "f", 
          spec_heat_air |-> "f", spec_heat_ice |-> "f", spec_heat_water |-> "f", k_i |-> "f", k_w |-> "f", 
          k_a |-> "f", water_density |-> "f", ice_density |-> "f", air_density |-> "f", sigma |-> "f", 
          zero_temperature |-> "f", surface_emission_coeff |-> "f"])
SlurmOptions ==
    [ LABELS |->
        [account |-> "s", name |-> "s", queue |-> "s"],
      PARAMETERS |->
        [slurm_parameters |-> "l", shebang |-> "s", local_directory |-> "s"],
      MEMORY |->
        [port |-> "i", cores |-> "i", nodes |-> "i", processes |-> "i", memory |-> "s"],
      OVERRIDES |->
        [memory_per_process |-> "i"] ]
aws2cosipy_Options ==
    [ names |->
        [PRES_var |-> "s", T2_var |-> "s", in_K |-> "b", RH2_var |-> "s", G_var |-> "s", RRR_var |-> "s", 
          U2_var |-> "s", LWin_var |-> "s", SNOWFALL_var |-> "s", N_var |-> "s"],
      coords |->
        [WRF |-> "b", aggregate |-> "b", aggregation_step |-> "s", delimiter |-> "s"],
      radiation |->
        [radiationModule |-> "s", LUT |-> "b", LUT_path |-> "s", dtstep |-> "i", tcart |-> "i", 
          timezone_lon |-> "f", zeni_thld |-> "f"],
      points |->
        [point_model |-> "b", plon |-> "f", plat |-> "f", hgt |-> "f"],
      station |->
        [stationName |-> "s", stationAlt |-> "f", stationLat |-> "f"],
      lapse |->
        [lapse_T |-> "f", lapse_RH |-> "f", lapse_RRR |-> "f", lapse_SNOWFALL |-> "f"] ]
create_static_Options ==
    [ paths |->
        [static_folder |-> "s", dem_path |-> "s", shape_path |-> "s", output_file |-> "s"],
      coords |->
        [tile |-> "b", aggregate |-> "b", aggregate_degree |-> "f", longitude_upper_left |-> "f", 
          latitude_upper_left |-> "f", longitude_lower_right |-> "f", latitude_lower_right |-> "f"] ]
wrf2cosipy_Options ==
    [ constants |->
        [hu |-> "i", lu_class |-> "i"] ]
=============================================================================
