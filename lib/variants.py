"""Sets of model constants used for the column properties (overrides of the defaults)."""
V = {
 "base": {},
 "adaptive": dict(remesh_method="adaptive_profile"),
 "adaptive-loose": dict(remesh_method="adaptive_profile", merge_max=4, density_threshold_merging=25, temperature_threshold_merging=0.6,
                        minimum_snow_layer_height=0.004),
 "coarse": dict(first_layer_height=0.05, layer_stretching=1.5, minimum_snow_layer_height=0.002, snow_ice_threshold=850.0),
 "fine": dict(first_layer_height=0.004, layer_stretching=1.1, minimum_snow_layer_height=0.0005, minimum_snowfall=0.0002),
 "bougamont": dict(albedo_method="Bougamont05"),
 "bougamont-fast": dict(albedo_method="Bougamont05", dt=10800, t_star_wet=6, t_star_dry=12, t_star_K=7, t_star_cutoff=260.0,
                        albedo_fresh_snow=0.9, albedo_firn=0.5, albedo_ice=0.2),
 "tropical": dict(albedo_mod_snow_aging=6, albedo_mod_snow_depth=8, albedo_fresh_snow=0.9, albedo_firn=0.5, albedo_ice=0.25,
                  roughness_fresh_snow=0.3, roughness_ice=2.0, roughness_firn=3.5, aging_factor_roughness=0.01),
 "vionnet": dict(densification_method="Vionnet"),
 "empirical": dict(densification_method="empirical"),
 "constant": dict(densification_method="constant"),
 "boone-min": dict(minimum_snow_layer_height=0.02),
 "mo": dict(stability_correction="MO"),
 "mo-empirical": dict(stability_correction="MO", thermal_conductivity_method="empirical", z=10.0),
 "empcond": dict(thermal_conductivity_method="empirical"),
 "otherphys": dict(lat_heat_melting=3.0e5, spec_heat_ice=1900.0, spec_heat_water=4000.0, k_i=2.0, k_a=0.05, ice_density=910.0,
                   air_density=1.3, snow_ice_threshold=830.0, zero_temperature=273.16),
 "newton": dict(sfc_temperature_method="Newton"),
 "depths": dict(zlt1=0.08, zlt2=0.2, dt=1800, surface_emission_coeff=0.97),
 "deepinit": dict(initial_snowheight_constant=1.3, initial_glacier_height=7.3, initial_glacier_layer_heights=0.4,
                  initial_top_density_snowpack=250.0, initial_bottom_density_snowpack=450.0, temperature_bottom=268.0),
 "noinit": dict(initial_snowheight_constant=0.0, initial_glacier_height=2.0, initial_glacier_layer_heights=0.25),
}
small = dict(initial_glacier_height=1.5, initial_glacier_layer_heights=0.25)
V.update({
 "run": dict(small),
 "run-alt": dict(small, stability_correction="MO", albedo_method="Bougamont05", densification_method="Vionnet"),
 "run-adaptive": dict(small, remesh_method="adaptive_profile", densification_method="empirical", thermal_conductivity_method="empirical",
                      mult_factor_RRR=1.4, center_snow_transfer_function=0.3, spread_snow_transfer_function=2.0),
 "run-3h": dict(small, dt=10800, densification_method="constant", minimum_snowfall=0.004, z=5.0, initial_snowheight_constant=0.6),
 "run-phys": dict(small, dt=1800, ice_density=910.0, lat_heat_melting=3.2e5, lat_heat_sublimation=2.9e6, lat_heat_vaporize=2.4e6,
                  zlt1=0.08, zlt2=0.2, albedo_fresh_snow=0.9, albedo_firn=0.5, albedo_ice=0.25, surface_emission_coeff=0.97),
 "run-newton": dict(small, sfc_temperature_method="Newton", stability_correction="MO"),
})
V.update({   # the same kind of values written as whole numbers / with a decimal point
 "run-whole": dict(small, z=2, zero_temperature=273, ice_density=917, spec_heat_ice=2050, water_density=1000, air_density=1, lat_heat_melting=334000,
                   lat_heat_vaporize=2500000, lat_heat_sublimation=2834000, spec_heat_air=1004, spec_heat_water=4217, k_i=2, k_w=1, surface_emission_coeff=1,
                   mult_factor_RRR=1, roughness_fresh_snow=1, roughness_ice=2, roughness_firn=4, initial_glacier_height=2, initial_snowheight_constant=1,
                   temperature_bottom=270, initial_top_density_snowpack=300, layer_stretching=2, t_star_K=14),
 "run-point": dict(small, dt=3600.0, albedo_mod_snow_aging=22.0, albedo_mod_snow_depth=3.0, t_star_wet=15.0, t_star_dry=30.0, t_star_K=14.0, max_layers=200,
                   albedo_method="Bougamont05"),
})
# chains of compiled runs (C38): no two sets share a value
SCALED = ["mult_factor_RRR", "center_snow_transfer_function", "spread_snow_transfer_function", "minimum_snow_layer_height", "minimum_snowfall", "zlt1", "zlt2", "z",
          "albedo_ice", "albedo_firn", "albedo_mod_snow_depth", "roughness_fresh_snow", "roughness_ice", "roughness_firn", "aging_factor_roughness", "t_star_wet",
          "t_star_dry", "t_star_K", "first_layer_height", "density_threshold_merging", "temperature_threshold_merging", "constant_density", "air_density",
          "spec_heat_air", "spec_heat_ice", "spec_heat_water", "k_i", "k_w", "k_a", "lat_heat_melting", "lat_heat_vaporize", "lat_heat_sublimation",
          "initial_snowheight_constant", "initial_top_density_snowpack"]
from defaults import CONSTANTS as _C, flat as _flat
_D = _flat(_C)
for _n, _base in (("run", 0.97), ("run-phys", 1.05), ("run-alt", 0.93), ("run-adaptive", 1.02)):
    V["chain-" + _n[4:]] = dict({k: _D[k] * _base for k in SCALED}, surface_emission_coeff=0.94 + 0.05 * (_base - 0.9) / 0.15,
                                snow_ice_threshold=850.0 + 200 * (_base - 0.9), **{k: v for k, v in V[_n].items() if k not in SCALED and k != "surface_emission_coeff"})
V["chain-whole"] = V["run-whole"]
PLAN = {   # property -> variants
 "C01": ["base", "adaptive", "adaptive-loose", "coarse", "fine"],
 "C02": ["base", "fine", "otherphys"],
 "C03": ["base", "fine", "tropical", "bougamont"],
 "C04": ["base", "otherphys"],
 "C05": ["base", "otherphys"],
 "C06": ["base", "empcond", "otherphys"],
 "C07": ["base", "vionnet", "empirical", "constant", "boone-min"],
 "C08": ["base", "otherphys"],
 "C09": ["base", "bougamont", "bougamont-fast", "tropical"],
 "C10": ["base", "tropical"],
 "C11": ["base", "mo", "newton", "mo-empirical", "depths"],
 "C12": ["base", "mo", "mo-empirical", "depths"],
 "C16": ["base", "deepinit", "noinit", "otherphys"],
}
