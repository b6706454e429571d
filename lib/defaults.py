"""Configuration written for the code under test (the shipped defaults, spelled out)."""
CONSTANTS = {
 "GENERAL": dict(dt=3600, max_layers=200, z=2.0),
 "PARAMETERIZATIONS": dict(stability_correction='Ri', albedo_method='Oerlemans98', densification_method='Boone',
    penetrating_method='Bintanja95', roughness_method='Moelg12', saturation_water_vapour_method='Sonntag90',
    thermal_conductivity_method='bulk', sfc_temperature_method='Secant'),
 "INITIAL_CONDITIONS": dict(initial_snowheight_constant=0.2, initial_snow_layer_heights=0.10, initial_glacier_height=40.0,
    initial_glacier_layer_heights=0.5, initial_top_density_snowpack=300.0, initial_bottom_density_snowpack=600.0,
    temperature_bottom=270.16, const_init_temp=0.1, zlt1=0.06, zlt2=0.1),
 "PRECIPITATION": dict(center_snow_transfer_function=1.0, spread_snow_transfer_function=1, mult_factor_RRR=1.0,
    minimum_snow_layer_height=0.001, minimum_snowfall=0.001),
 "REMESHING": dict(remesh_method='log_profile', first_layer_height=0.01, layer_stretching=1.20, merge_max=1,
    density_threshold_merging=5, temperature_threshold_merging=0.01),
 "CONSTANTS": dict(constant_density=300.0, albedo_fresh_snow=0.85, albedo_firn=0.55, albedo_ice=0.3, albedo_mod_snow_aging=22,
    albedo_mod_snow_depth=3, t_star_wet=10, t_star_dry=30, t_star_K=14, t_star_cutoff=263.17, roughness_fresh_snow=0.24,
    roughness_ice=1.7, roughness_firn=4.0, aging_factor_roughness=0.0026, snow_ice_threshold=900.0, lat_heat_melting=3.34e5,
    lat_heat_vaporize=2.5e6, lat_heat_sublimation=2.834e6, spec_heat_air=1004.67, spec_heat_ice=2050.00,
    spec_heat_water=4217.00, k_i=2.22, k_w=0.55, k_a=0.024, water_density=1000.0, ice_density=917.0, air_density=1.1,
    sigma=5.67e-8, zero_temperature=273.16, surface_emission_coeff=0.99),
}
CONFIG = {
 "SIMULATION_PERIOD": dict(time_start='2009-01-01T00:00', time_end='2009-01-01T05:00'),
 "FILENAMES": dict(data_path='./data/', input_netcdf='input.nc', output_prefix='out'),
 "RESTART": dict(restart=False),
 "STAKE_DATA": dict(stake_evaluation=False, stakes_loc_file='./loc.csv', stakes_data_file='./stakes.csv', eval_method='rmse', obs_type='snowheight'),
 "DIMENSIONS": dict(WRF=False, WRF_X_CSPY=False, northing='lat', easting='lon'),
 "COMPRESSION": dict(compression_level=2),
 "PARALLELIZATION": dict(slurm_use=False, workers=1, local_port=8786),
 "FULL_FIELDS": dict(full_field=False),
 "FORCINGS": dict(force_use_TP=False, force_use_N=False),
 "SUBSET": dict(tile=False, xstart=20, xend=40, ystart=20, yend=40),
 "OUTPUT_VARIABLES": dict(output_atm='RAIN,SNOWFALL,LWin,LWout,H,LE,B,QRR,TS,ALBEDO,Z0',
    output_internal='surfMB,MB,Q,SNOWHEIGHT,TOTALHEIGHT,LAYERS,ME,intMB,EVAPORATION,SUBLIMATION,CONDENSATION,DEPOSITION,REFREEZE,subM,surfM,MOL',
    output_full='HEIGHT,RHO,T,LWC,CC,POROSITY,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE'),
}
SLURM = {"SLURM": {"NAME": {"name": "cosipy"}}}


def merged(base, over):
    out = {s: dict(v) for s, v in base.items()}
    over = dict(over or {})
    for s in out:
        for k in out[s]:
            if k in over:
                out[s][k] = over.pop(k)
    if over:
        out.setdefault("EXTRA", {}).update(over)
    return out


def flat(table):
    r = {}
    for v in table.values():
        r.update(v)
    return r


def toml(table):
    def val(v):
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, (int, float)):
            return repr(v)
        if isinstance(v, list):
            return "[" + ", ".join(val(x) for x in v) + "]"
        import json
        return json.dumps(v)
    return "".join(f"[{s}]\n" + "".join(f"{k} = {val(v)}\n" for k, v in kv.items()) + "\n" for s, kv in table.items())
