"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

G="cosipy/cpkernel/grid.py"; N="cosipy/cpkernel/node.py"; CORE="cosipy/cpkernel/cosipy_core.py"; IO="cosipy/cpkernel/io.py"; INI="cosipy/cpkernel/init.py"; MAIN="COSIPY.py"; MOD="cosipy/modules/"

p("C01","Re-meshing conserves the column's height, ice, water and heat",
  "Re-meshing a layered snow/ice column, with the logarithmic or the adaptive method, leaves its total height, ice mass, liquid-water mass and height-weighted temperature unchanged, except that it may discard snow layers thinner than the configured minimum layer height. "
  "Merging two neighbouring layers or splitting one conserves the same four quantities, and the logarithmic method arranges the snow and then the glacier into heights that start at the configured first-layer height and grow by the configured stretching factor up to the last full layer and the remainder below it, never moving material between snow and glacier while either is thick enough to be re-meshed. The adaptive method merges neighbouring layers that are similar enough (or too thin) and splits the topmost layer where it is too thick.",
  ["inputs","histories","configurations"],"every column (any number of layers, heights, densities, temperatures and water contents, thin and wet layers included), every sequence of re-meshings interleaved with snowfall and melt, both methods and their thresholds",
  "The tests re-mesh one fixture column and look at the layer count; conservation over arbitrary columns and over long histories is never evaluated.",
  [G],[("layer merging","Grid.merge_nodes"),("layer splitting","Grid.correct_layer"),("logarithmic arrangement","Grid.log_profile"),("similarity merging","Grid.adaptive_profile"),("thin-layer removal","Grid.update_grid")],["layer profiles before and after a re-mesh","HEIGHT/LWC/ICE_FRACTION/T profiles of a full-field run"],
  [("layers","ordered heights, temperatures, ice and water fractions","Grid.grid")])
p("C02","Snowfall and surface melt change the column by exactly the given mass",
  "Adding snow puts exactly one layer with the given height, density, temperature and water on top of an otherwise untouched column. "
  "Removing surface melt takes exactly the requested water-equivalent mass from the top downwards (whole layers first, the last one thinned at unchanged density), leaves every deeper layer untouched, and returns exactly the liquid water that the removed layers contained.",
  ["inputs","histories"],"every column, every snowfall height/density/temperature, every melt amount from zero to several layers, and every sequence of the two",
  "The tests remove one fixed amount from one column; amounts at, just below and beyond layer boundaries and their sequences are not explored.",
  [G,N,CORE],[("snow layer insertion","Grid.add_fresh_snow"),("density to ice fraction","Node.__init__"),("melt removal","Grid.remove_melt_weq")],["layer profiles after each operation","returned liquid water"])
p("C03","The snow surface's age is the time since the last significant snowfall",
  "A snowfall of at least the configured minimum depth resets the surface age to zero, remembers its depth, and keeps the previous surface age as the age of the snow underneath; a smaller or absent snowfall advances both ages by one time step and leaves the remembered depth alone. "
  "When the remembered fresh-snow depth is used up before the albedo ageing time has elapsed, the surface age falls back to the age of the underlying snow; melting at the surface uses up the remembered depth.",
  ["histories","inputs"],"every sequence of snowfalls around the threshold, dry steps, melt events and albedo evaluations, from every stored (depth, age, older age) state, for every time step length",
  "Tests set the three tracker values directly; no test follows them through a sequence of snowfall, ageing and melt.",
  [G,MOD+"albedo.py",CORE],[("reset on snowfall","Grid.set_fresh_snow_props"),("ageing","Grid.set_fresh_snow_props_update_time"),("fallback","get_surface_properties in modules/albedo.py"),("reduction by melt","Grid.remove_melt_weq")],["fresh-snow depth, age and older age after every operation","restart file fields NEWSNOWHEIGHT, NEWSNOWTIMESTAMP, OLDSNOWTIMESTAMP"],
  [("tracker","fresh-snow depth, surface age, age of the snow underneath","Grid")])
p("C04","Percolation conserves water and follows the bucket scheme",
  "All water supplied at the surface plus the water already in the column is afterwards either held in a layer or reported as runoff, which is never negative. "
  "Every layer except the deepest passes on exactly what exceeds its irreducible water content and keeps the rest, the deepest layer is drained completely into the runoff, and heights, temperatures and ice fractions are untouched.",
  ["inputs","histories"],"every column (dry, wet, saturated, with ice lenses, one or many layers) and every water input, including the sequence of inputs produced by a whole run (melt, condensation, rain and water freed from removed layers)",
  "The tests check a handful of columns for non-negativity or a single layer's value; conservation over all columns and through the model loop is not asserted.",
  [MOD+"percolation.py",N,CORE],[("bucket loop","percolation"),("runoff","get_runoff"),("retention capacity","Node.get_layer_irreducible_water_content"),("water input","time loop in cosipy_core")],["liquid-water profile before/after","runoff Q"])
p("C05","Refreezing conserves mass and never exceeds its physical limits",
  "Refreezing turns liquid water into the same mass of ice, only in layers at or below the melting point that hold water, by the smallest of: the layer's water, the pore space left below the snow/ice density threshold, and the layer's cold-content limits. "
  "Each layer warms by exactly the latent heat released spread over its ice and water and never above the melting point, and the reported total is the sum of the per-layer refrozen amounts.",
  ["inputs","histories"],"every column with any temperatures (also exactly at melting), water contents and ice fractions up to and beyond the pore-close threshold, and every run",
  "Tests use a few fixture columns with fixed bounds; the minimum of four competing limits and the sum over layers are not covered for arbitrary columns.",
  [MOD+"refreezing.py",CORE],[("limits","refreezing"),("bounds guard","check_oob")],["ice, water and temperature profiles before/after","refrozen total REFREEZE","per-layer LAYER_REFREEZE"])
p("C06","Heat conduction obeys the maximum principle and fixed boundaries",
  "Conducting heat through the column over any time step leaves the surface and the deepest layer temperature and all heights and fractions unchanged and never produces a temperature above the warmest or below the coldest one present before. "
  "The result is the explicit finite-difference solution of the conduction equation on the non-uniform layer grid with layer-mean diffusivities, advanced in stable sub-steps that add up to exactly the time step.",
  ["inputs","configurations"],"every column of three or more layers with arbitrary height ratios and diffusivities, and every time step length from seconds to a day",
  "The tests of the heat equation re-implement or never call the solver; stability and the sum of sub-steps for arbitrary grids are not checked.",
  [MOD+"heatEquation.py",N],[("stability limit and sub-stepping","solveHeatEquation"),("diffusivity","Node.get_layer_thermal_diffusivity")],["temperature profile before/after"])
p("C07","Snow compaction is monotone, selective and follows the configured law",
  "Compaction never makes a snow layer thicker and never lowers its ice fraction, leaves temperatures and all glacier-ice layers untouched, and does nothing under the constant-density option. "
  "Snow layers (thicker than the configured minimum, for the overburden methods) change exactly by the configured law: overburden pressure with temperature- and density-dependent viscosity after Boone, overburden stress after Vionnet, or exponential relaxation towards 600 kg m-3.",
  ["inputs","configurations","histories"],"every column, every densification method, slope and time step, and every run",
  "Tests check that fixture density grows for one method; the other methods, the selection of layers and the accumulation of overburden are not settled.",
  [MOD+"densification.py",CORE],[("dispatch","densification"),("laws","method_Boone, method_Vionnet, method_empirical")],["heights, ice and water fractions before/after"])
p("C08","Penetrating sunlight conserves mass and never warms past melting",
  "A fixed share of net shortwave (10 % over snow, 20 % over ice) is reported as penetrating and heats the layers by the exponentially decaying amount absorbed above each layer centre, leaving the deepest layer untouched and no layer warmer than the melting point by its action. "
  "Energy beyond melting turns layer ice into the same mass of liquid water at unchanged ice fraction (the layer shrinks), and the reported subsurface melt equals the ice mass that the column lost.",
  ["inputs","histories"],"every column, every net shortwave flux and time step, snow or ice surface, and every run",
  "The one test checks the penetrating share; absorption per layer, mass conversion and the reported melt are not checked.",
  [MOD+"penetratingRadiation.py",CORE],[("absorption profile and melt","method_Bintanja"),("residual flux","time loop in cosipy_core")],["profiles before/after","returned melt and flux","subM"])
p("C09","Surface albedo is bounded, ages monotonically and follows the chosen scheme",
  "The albedo of a glacier-ice surface is the configured ice albedo; over snow it is the snow albedo relaxed towards the ice albedo exponentially with the total snow depth. "
  "With the Oerlemans scheme the snow albedo decays exponentially from the fresh to the firn value with the surface age; with the Bougamont scheme it takes one explicit decay step per time step with the wet, dry or cold time scale chosen by the surface temperature and is reset to the fresh value exactly when significant snow has just fallen, so it always stays between the smallest and largest configured albedo.",
  ["inputs","histories","configurations"],"every column and tracker state, every surface temperature and stored snow albedo, both schemes, all parameter values, and every run",
  "Tests evaluate single points of the formulas; histories (ageing, resets, fallback, carried snow albedo) are not followed.",
  [MOD+"albedo.py",CORE],[("Oerlemans scheme","method_Oerlemans"),("Bougamont scheme","method_Bougamont"),("carried state","time loop in cosipy_core")],["returned albedo and snow albedo","ALBEDO"])
p("C10","Surface roughness grows with snow age within its configured bounds",
  "The roughness length of a snow surface grows linearly with the hours since the last significant snowfall from the fresh-snow value up to, and never beyond, the firn value; a glacier-ice surface always has the ice value. "
  "It is reported in metres and depends on nothing else.",
  ["inputs","histories","configurations"],"every column, every surface age, all roughness parameters, and every run",
  "One test evaluates the formula at one age; the cap, the ice case and the evolution in a run are not quantified over.",
  [MOD+"roughness.py",CORE],[("linear ageing with cap","method_Moelg")],["returned roughness","Z0"])
p("C11","Surface temperature closes the energy balance or is capped at melting",
  "With the Secant or Newton solver the surface temperature never leaves the interval from 220 K to the melting point: it balances the sum of net shortwave, longwave, sensible, latent, ground and rain heat fluxes to within the solver's temperature tolerance, or it equals the melting point and the sum there is a surplus, or it equals 220 K and the sum there is a deficit. "
  "It becomes the top layer's temperature, and the reported fluxes are the ones at that temperature.",
  ["inputs","configurations","histories"],"every column and every meteorological forcing in the documented input ranges, with longwave given or derived from cloud cover, both stability corrections, the Secant and Newton solvers, and every run",
  "Tests check types and ranges for a few forcings; whether the root is really a root, over the space of forcings, is not decided.",
  [MOD+"surfaceTemperature.py",MOD+"secant.py",CORE],[("root search and cap","update_surface_temperature"),("residual","eb_optim"),("fallback","minimize branches"),("secant iteration","secant")],["surface temperature and returned fluxes","TS, LWin, LWout, H, LE, B, QRR"])
p("C12","Surface fluxes follow the documented bulk formulas for every stability regime",
  "Given the surface temperature, the incoming longwave (measured, or from air temperature, humidity and cloud cover when it is not supplied), outgoing longwave, sensible, latent, ground and rain heat fluxes equal the documented formulas with the configured Richardson-number or Monin-Obukhov stability correction, the latent heat switching from sublimation to vaporisation at the melting point. "
  "Turbulent fluxes vanish without wind, and under the Richardson scheme also in very stable air.",
  ["inputs","configurations"],"every forcing, surface temperature, roughness, slope and column; Ri and MO corrections; measured or parametrised longwave; both conductivity options",
  "Tests compare single flux values; stability regimes, calm air, phase switch and slope are not covered together.",
  [MOD+"surfaceTemperature.py",N],[("fluxes","eb_fluxes"),("stability functions","phi_m, phi_tq, MO, ustar"),("subsurface interpolation","interp_subT"),("saturation vapour pressure","method_EW_Sonntag")],["returned fluxes","H, LE, B, QRR, LWin, LWout"])
p("C13","The reported mass-balance terms add up at every time step",
  "At every time step and grid cell, mass balance = surface + internal mass balance; surface mass balance = snowfall - surface melt + sublimation + deposition + evaporation; internal mass balance = refreezing - subsurface melt. "
  "Surface melt is the reported melt energy times the time step over the latent heat of melting, and melt energy is the positive part of the sum of the reported energy fluxes with the non-penetrating net shortwave.",
  ["inputs","histories","configurations"],"every forcing series, initial state, configuration and time step of a run, read from the result data a user gets",
  "No test runs the model; the identities hold between outputs that only a whole run produces.",
  [CORE,IO,MAIN],[("bookkeeping","time loop in cosipy_core"),("output mapping","IOClass.copy_local_to_global")],["MB, surfMB, intMB, SNOWFALL, surfM, SUBLIMATION, DEPOSITION, EVAPORATION, REFREEZE, subM, ME and the fluxes"])
p("C14","Precipitation is split into snow and rain without loss or negative parts",
  "For total precipitation the solid part is the share given by the tanh transfer function of air temperature, turned into depth with the fresh-snow density, and the liquid part is the remainder; a supplied snowfall is used instead when present unless total precipitation is forced, in which case supplied snowfall is ignored; both are scaled by the configured factor. "
  "Snow or rain amounts below the configured minimum (rain compared as the same depth of fresh snow) count as zero, so neither is ever negative, and exactly the snow counted enters the column, at no more than melting temperature.",
  ["inputs","configurations"],"every combination of RRR/SNOWFALL inputs, force options, temperature, wind, factor, thresholds and densification option (which fixes the fresh-snow density), over whole runs",
  "No test executes the partition.",
  [CORE],[("partition and thresholds","time loop in cosipy_core")],["RAIN, SNOWFALL, change of the column"])
p("C15","Vapour exchange is exclusive, signed and consistent with the latent heat flux",
  "At every time step at most one of sublimation, deposition, evaporation and condensation is non-zero: below the melting point only sublimation (never positive) or deposition (never negative), at the melting point only evaporation (never positive) or condensation (never negative). "
  "The non-zero one equals the reported latent heat flux times the time step over water density and the matching latent heat.",
  ["inputs","histories"],"every forcing and every step of a run, on both sides of and exactly at the melting point",
  "No test runs the model loop.",
  [CORE],[("phase split","time loop in cosipy_core")],["SUBLIMATION, DEPOSITION, EVAPORATION, CONDENSATION, LE, TS"])
p("C16","The initial column is built exactly as configured",
  "A run without restart starts from a dry column whose snow height is the configured (or supplied) initial snow height and whose glacier part has the configured height, layer thickness and ice density, with temperatures falling linearly from the capped first air temperature to the configured bottom temperature and snow densities interpolated between the configured top and bottom values. "
  "A missing or undefined supplied snow height counts as the configured value or zero respectively, and undefined temperatures are refused.",
  ["inputs","configurations"],"every initial snow height (none, below one layer, several layers), glacier height and layer thickness, density pair, bottom temperature and first air temperature",
  "No test compares the whole profile; only one configuration is ever initialised.",
  [INI,CORE],[("profile construction","init_snowpack"),("NaN guard","create_grid_jitted")],["layer profiles of the created grid"])
p("C17","A cell's result depends only on its own forcing, state and configuration",
  "Running the same cell again, in the same process after other cells, or in another process gives identical results, and running never changes the forcing or restart data handed in. "
  "Appending later forcing does not change earlier results.",
  ["histories","inputs"],"every order and number of cells run in one process, every forcing series and every prefix of it",
  "Tests never run two cells in one process nor compare inputs before and after.",
  [CORE,G,MOD+"albedo.py"],[("local state only","cosipy_core")],["results of repeated and interleaved runs","input datasets before/after"])
p("C18","Each glacier cell's result lands in its own place whatever the finish order",
  "For every glacier mask and every order in which workers finish, each glacier cell is computed exactly once and every output and restart variable at (y, x) holds that cell's own result, as if it had been run alone. "
  "Cells outside the mask stay undefined in every output, and a tile of the domain gives the same values as the full domain does there.",
  ["schedules","inputs","configurations"],"all masks on small domains (including none), all completion orders, square and non-square domains, tiles, and all output variables",
  "No test runs the orchestration; a completion order cannot be forced with a real cluster.",
  [MAIN,IO],[("submission loop","run_cosipy"),("aggregation","IOClass.copy_local_to_global, copy_local_restart_to_global"),("tiling","IOClass.create_data_file")],["RESULT and RESTART datasets"])
p("C19","Stopping and restarting gives the same result as running through",
  "Running to any intermediate time, then restarting from the saved state to the end, produces the same results for the remaining steps and the same final saved state as one uninterrupted run. "
  "A restart continues with exactly the first step after the saved time, and a missing restart file, a restart file that does not cover the region, or an empty remaining period is refused.",
  ["crash_points","histories","configurations"],"every split point (and repeated splits) of every run, with either albedo scheme and re-meshing method",
  "No test restarts a run.",
  [IO,INI,CORE,MAIN],[("saved state","RESTART dataset in cosipy_core and io.py"),("state loading","load_snowpack"),("time continuation","IOClass.create_data_file")],["restart file and result file of both runs"],
  [("saved state","layers, fresh-snow tracker","restart_*.nc")])
p("C20","The run uses exactly the forcing of the configured period and region",
  "The steps simulated are exactly the input's time stamps within the configured period (both ends included), in increasing order, each with its own forcing values even if the input is not stored in time order; a tile selects exactly the configured index ranges. "
  "A period that does not overlap the input, or a missing input file, is refused, and a period reaching beyond it is warned about and clipped.",
  ["inputs","configurations"],"every time axis (shuffled, gappy), every period relative to it, every tile",
  "No test reads an input file through the model's reader.",
  [IO],[("time selection","IOClass.init_data_dataset"),("tiling","IOClass.create_data_file")],["dataset handed to the model","result file"])
p("C21","The result file holds exactly the selected variables, correctly described",
  "The result file contains the input fields that were supplied and exactly the selected output variables, each filled with its own quantity on its own dimensions with its documented unit and long name; layer variables are written only when full fields are requested, and an absent total precipitation or cloud cover is represented as undefined. "
  "The file's global attributes record the options and constants of the run.",
  ["configurations","inputs"],"every selection of output variables, full fields on/off, every combination of optional inputs, WRF or lat/lon dimensions",
  "No test exercises the writer.",
  [IO,MAIN],[("selection","IOClass.get_output_variables"),("metadata","get_result_metadata"),("copy","copy_local_to_global")],["RESULT dataset/file"])
p("C22","Unusable input is refused before any result is written",
  "If any glacier cell has an undefined value in any input field the run stops with an error and writes no result; undefined values outside the glacier mask never stop it. "
  "An unknown option for albedo, densification, roughness, radiation, stability or solver is refused, and a column that needs more layers than allowed is refused rather than silently truncated in the saved state.",
  ["inputs","configurations","fault_sequences"],"every position (variable, time, cell) of an undefined value, every invalid method name, every layer limit",
  "Tests check the error of a few invalid method names; positions of undefined values and their interplay with the mask are not enumerated.",
  [MAIN,CORE,MOD+"albedo.py",MOD+"densification.py",MOD+"roughness.py",MOD+"penetratingRadiation.py",MOD+"surfaceTemperature.py"],[("NaN gate","check_for_nan"),("option gates","method dispatchers"),("layer limit","cosipy_core")],["process outcome, presence of output files"])
p("C23","Coupled stepping equals a standalone run",
  "Driving the model one time step per call in coupled mode, feeding each returned state into the next call, gives the same fluxes, mass balance and layer state at every step as one standalone run with the same forcing, options and measurement height. "
  "Coupled mode always uses the Oerlemans albedo and Monin-Obukhov stability correction whatever the constants file says, and differs only where very stable air (height over Obukhov length above one) is limited as in Noah-MP.",
  ["histories","inputs"],"every forcing series and initial state, chained call by call",
  "No test runs coupled mode.",
  [CORE,INI,"cosipy/constants.py"],[("single-step return","WRF_X_CSPY branch of cosipy_core"),("state loading","load_snowpack"),("overrides","Constants.set_correct_config")],["returned values per call"])
p("C24","WRF-gridded input gives the same result as the same data on a lat/lon grid",
  "The same forcing laid out on curvilinear WRF dimensions and on latitude/longitude dimensions yields the same values cell by cell for every output, mask, tile and restart. "
  "Only the names of the horizontal dimensions differ in the files written.",
  ["inputs","configurations"],"every domain shape, mask, tile and option",
  "No test runs either layout.",
  [MAIN,IO,"cosipy/config.py"],[("layout switch","run_cosipy, IOClass, Config.set_correct_config")],["result and restart files of both runs"])
p("C25","Stake evaluation compares each stake with its nearest cell's simulation",
  "Each stake is evaluated at the grid cell nearest to it on the ellipsoid, at exactly the measurement times that occur in the run, against that cell's mass balance accumulated since the start of the run or its snow height, as configured; a stake on a cell without simulation has undefined values. "
  "The reported statistic is the root-mean-square difference over those times, per stake.",
  ["inputs","configurations"],"every stake position relative to the grid, several stakes per cell or none, any measurement times, both observation types, both layouts",
  "No test covers the evaluation.",
  [MAIN,CORE,MOD+"evaluation.py"],[("nearest cell","run_cosipy, transform_coordinates"),("sampling","cosipy_core"),("statistic","evaluate")],["stake_statistics.csv, stake_simulations.csv"])
p("C26","Station data are converted to model input by the configured gradients",
  "Converting a station record gives, for the point or every grid cell, temperature, humidity, precipitation and snowfall changed by exactly the configured gradient times the height difference, pressure moved by the barometric formula (unchanged at the station's own height), and wind, longwave and cloud cover copied, with humidity kept within 0-100 % and precipitation non-negative. "
  "Time aggregation averages states and sums precipitation (point input is always hourly, with gaps bridged by the last value), only the days from the given first to the given last are kept, and missing columns, temperatures outside 173-373 K and undefined values at glacier cells are refused.",
  ["inputs","configurations"],"every station record (missing columns, gaps, sub-hourly steps), height pair, gradient set, temperature unit and grid",
  "There are no tests of the converter.",
  ["cosipy/utilities/aws2cosipy/aws2cosipy.py"],[("gradients","set_bias"),("pressure","get_pressure_bias"),("point","create_1D_input"),("grid","create_2D_input")],["netCDF input file written"])
p("C27","WRF output is converted to model input without losing or inventing water",
  "Converting WRF output turns accumulated precipitation and snowfall into per-step amounts whose sum over time is the accumulated total minus its starting value, marks exactly the cells of the configured land-use class as glacier, and derives humidity (kept within 0-100 %), pressure in hPa, 2 m wind (from the configured height) and snow depth from the documented formulas. "
  "Every time step and cell of the selected period appears once, in order.",
  ["inputs","configurations"],"every accumulated series, land-use field, wind, humidity and period",
  "There are no tests of the converter.",
  ["cosipy/utilities/wrf2cosipy/wrf2cosipy.py"],[("de-accumulation, mask, wind, humidity","create_input, wrf_rh")],["netCDF input file written"])
p("C28","Generating sample configuration never overwrites files without consent",
  "Setting up sample configuration creates every missing sample file in the target directory and replaces an existing one only after an explicit yes or with the overwrite option; any other answer keeps the user's file byte for byte, and unrecognised answers are asked again. "
  "The shipped samples themselves are never modified, also when they are chosen as the target directory.",
  ["inputs","histories"],"every combination of pre-existing files, every answer sequence, overwrite on/off, any target directory",
  "There are no tests of this tool.",
  ["cosipy/utilities/setup_cosipy/setup_cosipy.py"],[("confirmation","copy_file_to_target, get_user_confirmation"),("target guard","main")],["files in the target and sample directories"])
p("C29","Configuration files determine every option, with documented overrides only",
  "Every option has exactly the value given in the configuration files named on the command line (or found in the configured directory), whatever the order of their sections, and reloading replaces it. "
  "The only adjustments are: WRF input renames the horizontal dimensions, coupled mode forces full fields, the Oerlemans albedo and Monin-Obukhov correction, zero workers means automatic, and a per-process memory override determines the cluster memory.",
  ["configurations","inputs"],"all combinations of the adjusting options with arbitrary values of all others, and all ways of naming the files",
  "Tests load the shipped files and one or two overrides; combinations and persistence across reloads are not explored.",
  ["cosipy/config.py","cosipy/constants.py","cosipy/utilities/config_utils.py"],[("loading","TomlLoader"),("overrides","set_correct_config"),("arguments","get_user_arguments")],["attributes of the loaded configuration"])
p("C30","Converting a legacy configuration keeps every setting",
  "Converting a legacy Python configuration to TOML yields files that parse as TOML and carry every known setting with the value it had, including booleans, numbers, and empty and quoted strings, in the table where the model looks for it. "
  "The legacy files are left as they were.",
  ["inputs","configurations"],"all legacy files with any values of the known settings, in any order, with comments",
  "There are no tests of the converter.",
  ["convert_config.py"],[("parsing and writing","convert_config.py")],["written TOML files"])
p("C31","Radiation correction leaves flat ground alone and stays within its limits",
  "Correcting station shortwave for terrain returns exactly the measured value on level ground and, when the sun is lower than the configured zenith threshold, on any ground; otherwise only the direct share is rescaled by the ratio of the cosines of incidence and zenith angles (nothing of it when the sun is behind the slope), so the diffuse share always reaches the surface. The sun stands where astronomy puts it at the true solar time (longitude and equation of time included). "
  "The diffuse share lies between its clear-sky minimum and one, and the distributed radiation written by the converter is never negative.",
  ["inputs"],"every place, day, hour, slope, aspect, measured flux and threshold",
  "There are no tests of the radiation module.",
  [MOD+"radCor.py","cosipy/utilities/aws2cosipy/aws2cosipy.py"],[("beam correction","radCor2D"),("diffuse share","Fdif_Neustift"),("clipping","create_2D_input")],["corrected flux"])
p("C32","The column stays physically valid throughout every run",
  "After every time step all layer properties are defined, every layer has positive height, no layer is warmer than the melting point, ice fractions lie in (0, 1], water contents are not negative, and reported snow height, total height and layer number equal those of the layer profile. "
  "Total height changes only by snowfall, melt, vapour exchange, compaction, subsurface melt and discarded thin layers.",
  ["histories","inputs","configurations"],"every forcing series within the documented input ranges, every initial state and configuration, every step",
  "No test runs the model loop; the validity of the state after hundreds of coupled processes is a property of histories.",
  [CORE,G],[("process chain","time loop in cosipy_core")],["full-field layer profiles, SNOWHEIGHT, TOTALHEIGHT, LAYERS"])
p("C33","Static input keeps the glacier outline and terrain of its sources",
  "The static file generated from an elevation model and a glacier outline marks a cell as glacier exactly when its centre lies in the outline and carries the elevation, slope and aspect of the elevation model there. "
  "Cropping takes exactly the configured window, aggregation averages the elevations of the coarser cell, and neither shifts the grid; a glacier cell whose terrain is undefined is refused, and the source files stay as they were.",
  ["inputs"],"every elevation model, outline, extent and aggregation",
  "There are no tests of the tool.",
  ["cosipy/utilities/createStatic/create_static_file.py"],[("gdal processing","create_static_file.py")],["static netCDF file"])
p("C34","Plots show the selected variable of the selected time and place",
  "Field, profile and 3-D plots show exactly the values of the variable, time step (or daily mean) and location that the user selected from the result file, at their coordinates, with its unit and name: field plots every cell with the elevation contours, 3-D plots one point per cell at its elevation (at the time step nearest to the given time), depth profiles the layers of the cell nearest to the given place, profiles over time at each height of the snow cover the layer whose lower boundary is nearest, with measured heights and dates at their time steps. "
  "Field and 3-D plots refuse results that are not two-dimensional, field plots a day named where a time step is needed; plotting never alters the result file.",
  ["inputs"],"every result file and selection",
  "The tests look at labels of a few plots.",
  ["cosipy/postprocessing/field_plots","cosipy/postprocessing/profile_plots","cosipy/postprocessing/vtk_plots"],[("selection","get_selection"),("field plots","plot_axes, plot_data"),("profiles","plot_profile_1D, plot_profile_1D_timeseries"),("3-D","createDEM_v1, add_scalar")],["what is handed to matplotlib and VTK"])
p("C35","Terrain radiation follows sun, horizon, sky view and atmosphere",
  "With the Moelg2009 module the converter gives every glacier cell (inside the border of the grid) at every step the radiation of the parametrisation: the sun's position from latitude, day, hour (in the middle of the step) and the station's time offset, direct radiation through the atmosphere on the sloping ground unless the ground turns away from the sun or the terrain towards the sun is higher than it, reduced by clouds, and diffuse radiation weighted with the part of the sky that ground and terrain leave open; nothing at night, never negative, at every latitude, step length and grid shape. "
  "A conversion with the stored look-up tables gives the same radiation as one that makes them, and the stored sky view is found at its latitude and longitude.",
  ["inputs","histories"],"every terrain, season, time offset and weather; also another record converted with stored tables",
  "There are no tests of the module.",
  ["cosipy/modules/radCor.py","cosipy/utilities/aws2cosipy/aws2cosipy.py"],[("sun","solpars"),("shading","relshad, LUTshad"),("sky view","LUTsvf"),("radiation","calcRad")],["G in the written input file, look-up table file"])
p("C36","A run uses the configured workers and leaves only its own files",
  "Every run starts exactly one cluster as configured - local with the given number of workers (zero: all processors) and port, one cell at a time per worker, or SLURM with the job name, account, cores, memory and further parameters of the SLURM file, scaled to one worker per core of every node - hands every cell out and collects it while that cluster is up, and releases it, also when the run fails. "
  "An accepted run leaves exactly one result file, named by the prefix and the days of the configured period, and one restart file, named by the last simulated step, in the configured data directory, compressed at the configured level; it replaces earlier files of those names completely and leaves all others as they were, and a refused run changes nothing.",
  ["configurations","histories"],"every cluster configuration, and every history of runs with changing directories, prefixes, periods, compression levels and restarts",
  "No test starts a run; names and replacements depend on the history of runs.",
  ["COSIPY.py","cosipy/config.py","cosipy/cpkernel/io.py"],[("cluster","main, run_cosipy"),("names","set_output_netcdf_path, get_timestamp_label, create_data_directory")],["arguments of the cluster, order of its events, files below the data directory"])

p("C37","A layer is what its height, temperature, ice and water make it",
  "Whatever was done to a column before, everything read from it follows from its present layers alone: every layer's density, porosity, specific heat, thermal conductivity and diffusivity, irreducible water content and cold content from the documented formulas with the configured constants, depths, layer numbers, snow and ice heights and total heights from the layers' heights and densities, and a profile agrees with the values of its single layers. "
  "Setting a property, updating, removing, merging or splitting layers, adding snow and ageing change what they name and nothing else - no other layer, property, or second column, and reading changes nothing; removing without naming layers takes the first.",
  ["histories","inputs","configurations"],"every column and every sequence of operations on several columns, including layers whose ice and water exceed their volume",
  "The tests check single values on a few fixed columns; stale or shared state shows only after particular sequences of operations.",
  ["cosipy/cpkernel/node.py",G],[("derived quantities","Node.get_layer_*"),("setters, getters","Grid.set_*, get_*, update_node, remove_node")],["what the getters of the column return"])

p("C38","Compiled runs follow the constants configured for them",
  "The compiled model, as users run it, makes every time step as the model's equations say with the constants configured for this run, whether they are written as whole or decimal numbers, and whatever other constants earlier runs of the same installation had: nothing compiled with other values is taken up again, and compiled and interpreted code agree.",
  ["histories","configurations"],"every chain of runs, each in a process of its own, with constants that change from run to run",
  "Constants are burnt into compiled code when a function is first used; the tests run one set of constants in one process.",
  [CORE,"cosipy/modules","cosipy/constants.py",G],[("compiled kernels","@njit, @jitclass")],["reported series and column states of compiled runs"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
