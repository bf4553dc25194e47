"""Single source for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
O = "openamundsen/"
p("P01", "Every accepted configuration option is declared once and takes effect",
  "Every setting that a validated configuration may contain is read by the model and can influence a run; no accepted option is silently ignored in favour of a built-in value. Conversely, every setting the model consults is declared in the configuration schema with a default or as required, so a configuration that passed validation never fails later because a setting is missing.",
  ["configurations", "inputs"], "for every option path the schema declares, and every configuration that validates",
  "The stable tests build a handful of configurations and never check that changing an option changes anything; the option space is combinatorial.",
  [O+"conf.py", O+"data/configschema.yml", O+"model.py", O+"surface.py", O+"modules/radiation/irradiance.py"],
  [("schema with defaults", O+"data/configschema.yml"), ("parse_config/validate_config", O+"conf.py"), ("option reads", "all modules reading model.config")])
p("P02", "Every accepted choice of an enumerated option is implemented",
  "For every option with an enumerated set of accepted values, each accepted value selects its own behaviour everywhere the option is consulted, or the combination is rejected with a configuration error before the run starts. No accepted value falls through a dispatch so that a later step fails on an undefined result, raises a not-implemented error, or silently behaves like a different choice.",
  ["configurations"], "for every enumerated option, every accepted value and every dispatch on it",
  "Tests sample a few values of a few options; the stable suite runs no model step at all, so an unhandled value shows up only in a user's run.",
  [O+"data/configschema.yml", O+"conf.py", O+"meteo/precipcorr.py", O+"meteo/interpolation.py", O+"modules/snow/snow.py", O+"modules/radiation/irradiance.py"],
  [("if/elif dispatches on option values", "all modules"), ("cross-option validation", O+"conf.py validate_config")])
p("P03", "Every field a configuration uses is registered in that configuration",
  "Whatever combination of snow model, melt method and optional modules is enabled, every gridded state field that the model reads, writes or offers as default output has been registered for that combination before the fields are allocated, with matching dimensionality. A field is never registered after allocation.",
  ["configurations"], "for every combination of snow model, melt method, canopy, evapotranspiration, glaciers, wind and precipitation-correction choices",
  "Only some combinations are exercised by tests (none in the stable set); a missing registration surfaces as an attribute error in the untested combination.",
  [O+"statevars.py", O+"model.py", O+"modules/snow/multilayermodel.py", O+"modules/snow/cryolayermodel.py", O+"modules/canopy/canopy.py", O+"modules/evapotranspiration/evapotranspiration.py", O+"modules/glacier/glaciermodel.py", O+"fileio/pointoutput.py"],
  [("add_variable registrations", "module constructors"), ("state.initialize allocation", O+"model.py")])
p("P04", "Resetting non-retained fields each step never changes results",
  "Enabling the option that clears non-retained state fields at the start of every time step leaves all simulation results unchanged. Every field whose value is carried from one step to the next, or loaded once from an input file, is therefore marked as retained; every other field is written in a step before it is read in that step.",
  ["configurations", "histories"], "for every configuration and every number of preceding time steps",
  "A missing retain flag only shows when the option is enabled, over several steps, in the configuration that uses the field; no test compares runs with and without it for each combination.",
  [O+"statevars.py", O+"model.py", O+"modules/glacier/glaciermodel.py", O+"surface.py"],
  [("retain flag of registrations", O+"statevars.py and module constructors"), ("reset at start of step", O+"model.py run_single")])
p("P05", "Simulation never touches pixels outside the region of interest",
  "Every simulated field (meteorology, snow, surface, soil, canopy, evapotranspiration) keeps its no-data value on all pixels outside the region of interest throughout initialization and every time step. Only terrain fields and raster inputs cover the whole grid.",
  ["inputs", "configurations", "histories"], "for every region-of-interest mask, every configuration and every time step",
  "Tests use a single small domain whose mask covers (nearly) everything, so a write that leaks outside the mask is invisible to them.",
  [O+"model.py", O+"surface.py", O+"modules/snow/snow.py", O+"modules/snow/cryolayermodel.py", O+"modules/evapotranspiration/evapotranspiration.py"],
  [("ROI mask indexing", "all state writes"), ("ROI index lists passed to kernels", O+"util.py ModelGrid")])
p("P06", "The snowpack conserves water mass in every process and every step",
  "In both snow models, at every pixel and in every time step, the change of total snow water (ice plus liquid over all layers) equals snowfall reaching the ground plus rainfall minus runoff minus sublimation. Compaction, melt, refreezing, layer merging and relayering move mass between layers and phases without creating or destroying it, and reported melt, refreezing and sublimation equal the mass actually moved (layers thinner than a micrometre may be dropped).",
  ["inputs", "configurations", "histories"], "for every forcing, every snowpack state, both snow models and all melt, compaction and liquid-water options",
  "Conservation is a statement over all states and forcings; the stable suite executes no snow code and sampled runs cannot cover branch combinations per layer.",
  [O+"modules/snow/multilayermodel.py", O+"modules/snow/cryolayermodel.py", O+"modules/snow/snow.py", O+"surface.py"],
  [("paired updates of ice and liquid pools", O+"modules/snow"), ("refreezing", O+"surface.py cryo_layer_energy_balance")])
p("P07", "Precipitation and canopy storage are partitioned without loss",
  "Whenever precipitation, snowfall or rainfall changes within a step, total precipitation afterwards equals snowfall plus rainfall at every pixel. In forests, snow intercepted by the canopy leaves snowfall and enters the canopy store, and what leaves the store is exactly the reported canopy sublimation and melt unload, the latter being added back to snowfall.",
  ["inputs", "configurations", "histories"], "for every forcing, land cover and canopy state",
  "The bookkeeping spans several modules and only fails for particular forcing/land-cover combinations; stable tests never run the canopy model.",
  [O+"model.py", O+"modules/canopy/canopy.py", O+"meteo/precipcorr.py"],
  [("phase partition", O+"model.py _process_meteo_data"), ("canopy load update", O+"modules/canopy/canopy.py")])
p("P08", "Soil and sealed-surface water budgets close in every step",
  "In the evapotranspiration module, root-zone depletion, surface-layer depletion and sealed-surface interception change in each step exactly by precipitation, evaporation or evapotranspiration, and percolation, before limiting to their physical range; evapotranspiration always equals evaporation plus transpiration where both are computed. Depletions stay between zero and the available water, and excess water leaves as percolation rather than vanishing.",
  ["inputs", "configurations", "histories"], "for every forcing, soil class and land cover",
  "The budgets involve clipped recurrences over time that no stable test executes.",
  [O+"modules/evapotranspiration/evapotranspiration.py"],
  [("FAO-56 water balance equations", O+"modules/evapotranspiration/evapotranspiration.py")])
p("P09", "No process withdraws more water than its store holds",
  "Every flux taken out of a water store (snow ice, snow liquid water, canopy load, sealed-surface interception) is limited by the current content of that store, so stores never become negative. Fluxes that are physically one-directional (melt, refreezing, runoff, percolation, canopy sublimation) are never negative.",
  ["inputs", "histories"], "for every forcing and every content of the store",
  "The limit matters only in steps that exhaust a store, which samples of typical conditions do not reach.",
  [O+"modules/snow/multilayermodel.py", O+"modules/snow/cryolayermodel.py", O+"modules/canopy/canopy.py", O+"modules/evapotranspiration/evapotranspiration.py", O+"surface.py"],
  [("minimum/clip limits on withdrawals", "snow, canopy, evapotranspiration modules")])
p("P10", "All quantities are combined in consistent physical units",
  "Every computed field carries the physical unit declared for it: values added, compared, limited against or assigned to one another have the same dimension, rates are multiplied by a duration before they enter a store, and arguments passed to a process have the unit that process documents. Temperatures in kelvin and degrees Celsius, angles in degrees and radians, and hourly, daily and per-second quantities are never mixed.",
  ["inputs", "configurations"], "for every input, since a dimension error corrupts all of them",
  "Tests compare a few formula outputs with tabulated values; most formulas have no test and unit errors stay plausible.",
  [O+"surface.py", O+"constants.py", O+"meteo/atmosphere.py", O+"meteo/interpolation.py", O+"modules/evapotranspiration/evapotranspiration.py", O+"modules/snow", O+"modules/soil/soil.py", O+"heatconduction.py"],
  [("declared units of state fields", O+"statevars.py"), ("documented units of constants and parameters", O+"constants.py and docstrings")])
p("P11", "Energy fluxes enter every energy balance once and with the right sign",
  "Wherever the surface energy balance is formed (melt energy, surface temperature, remainder for a trial temperature) it is net radiation plus sensible, latent and advective heat minus ground heat flux, all evaluated for the same surface temperature; net radiation is incoming minus outgoing shortwave plus incoming minus outgoing longwave. Melt is the available energy over the step divided by the latent heat of fusion.",
  ["inputs", "configurations"], "for every meteorological situation, both snow models and all melt options using the energy balance",
  "A dropped or sign-flipped term still gives plausible melt; the stable suite runs no energy balance.",
  [O+"surface.py"],
  [("net radiation", O+"surface.py calc_radiation_balance"), ("energy balance sums", O+"surface.py multilayer_energy_balance, solve_energy_balance, energy_balance_remainder")])
p("P12", "Heat conduction exchanges equal and opposite fluxes between layers",
  "In the implicit heat conduction used for snow and soil, the heat leaving a layer through an interface is exactly the heat entering its neighbour, and the solved system is the implicit discretisation of those same fluxes. The per-column solver and the vectorised solver represent the same system, and the flux at the snow-soil interface is evaluated from the same two temperatures on both sides.",
  ["inputs"], "for every number of layers, thickness, conductivity and temperature profile",
  "Only the bare tridiagonal solver is tested; the assembled systems are not, and special cases (one layer, last layer) are separate code.",
  [O+"heatconduction.py", O+"tridiag.py", O+"modules/snow/multilayermodel.py", O+"modules/soil/soil.py"],
  [("matrix assembly", O+"heatconduction.py"), ("interface flux", O+"modules/soil/soil.py")])
p("P13", "Results do not depend on thread count, randomness or wall-clock time",
  "Running the same configuration and forcing with any number of worker threads and at any time gives identical results: parallel pixel loops never let two iterations write the same element or one read what another writes, and no simulated value depends on unseeded random numbers, the current time, the process environment or set iteration order.",
  ["schedules", "configurations"], "for every thread count and every interleaving of parallel loop iterations",
  "A data race shows only under particular interleavings; tests run with one scheduling and compare approximately.",
  [O+"terrain.py", O+"modules/snow", O+"modules/soil/soil.py", O+"modules/radiation", O+"meteo/interpolation.py"],
  [("numba parallel kernels", "njit(parallel=True) functions"), ("seeded lapse-rate fit", O+"meteo/interpolation.py")])
p("P14", "A model run leaves the caller's objects and process settings untouched",
  "Creating, initializing and running a model never modifies the configuration mapping, forcing dataset or output dataset passed in by the caller, nor package-level tables shared with other model instances, and the process-wide thread setting is restored after every step, also when the step fails. Two models in one process therefore cannot influence each other.",
  ["histories", "inputs", "fault_sequences"], "for every caller-supplied object, every exit of a step including exceptions, and every sequence of models in a process",
  "Tests create fresh inputs for each case and never inspect them afterwards, and never make a step fail.",
  [O+"conf.py", O+"model.py", O+"forcing.py", O+"meteo/precipcorr.py", O+"fileio/meteo.py"],
  [("copies of caller data", O+"model.py initialize, conf.py parse_config"), ("thread setting save/restore", O+"model.py run_single")])
p("P15", "Outputs and live view only observe the simulation",
  "Writing point outputs, gridded outputs or the live view never changes any model state, configuration, grid or forcing, so enabling, disabling or changing outputs cannot change simulated values. Values handed out or stored by outputs are copies, not live references to model fields that later steps overwrite.",
  ["configurations", "histories"], "for every output configuration and every time step",
  "Tests check that outputs contain expected values, not that simulation is independent of them.",
  [O+"fileio/pointoutput.py", O+"fileio/griddedoutput.py", O+"liveview.py"],
  [("read-only use of the model in output managers", O+"fileio"), ("aggregation buffers", O+"fileio/griddedoutput.py")])
p("P16", "Time stepping visits each date once, in order, with a fixed step protocol",
  "A run processes every date of the period exactly once in ascending order; starting a finished or already started run again is refused with a runtime error instead of re-processing steps. In each step forcing is prepared before derived meteorology, that before the process modules, and outputs are updated last, once per step, after all fields of the step are final.",
  ["histories", "configurations"], "for every sequence of run and single-step calls",
  "Tests exercise a few call sequences; the ordering across modules is implicit and not asserted.",
  [O+"model.py"],
  [("run/run_single guards", O+"model.py"), ("model interface order", O+"model.py")])
p("P17", "No raster input is used without being checked against the model grid",
  "Every raster read into the model is verified to match the model grid's extent, resolution and shape, or explicitly checked for alignment and coverage in the case of extended grids, and any mismatch raises a raster error. The region of interest never includes pixels without elevation.",
  ["inputs"], "for every set of input rasters",
  "Tests try one or two mismatching rasters for one file type; new or other inputs are unchecked.",
  [O+"model.py", O+"fileio/raster.py"],
  [("metadata comparison on read", O+"fileio/raster.py read_raster_file"), ("extended grid alignment checks", O+"model.py _read_extended_grids")])
p("P18", "Forcing values are always within physical limits when they reach the model",
  "Measured values outside the physical range of their variable are discarded on reading, and every interpolated field is limited to that variable's physical range before any process uses it, for all interpolation methods and options. All readers and lookup tables agree on the set of meteorological variables, their units and ranges.",
  ["inputs", "configurations"], "for every station record, interpolation method and extrapolation setting",
  "Extreme measurements and extrapolations to high elevations are rare in samples; the range step is separate per variable and path.",
  [O+"meteo/interpolation.py", O+"fileio/meteo.py", O+"forcing.py", O+"constants.py"],
  [("allowed range table", O+"constants.py"), ("clipping after interpolation", O+"meteo/interpolation.py"), ("range filter on read", O+"fileio/meteo.py")])
p("P19", "Aggregated and instantaneous outputs cover exactly their interval",
  "An aggregated gridded output contains every time step since the previous write exactly once, and the accumulators restart from empty after each write, for every output format and layout; instantaneous outputs hold the value of the written step. Point outputs contain every time step exactly once and are never lost or duplicated between successive file writes.",
  ["histories", "configurations"], "for every output frequency, format, layout and run length",
  "Tests check a few frequencies and formats; none of them is in the stable set.",
  [O+"fileio/griddedoutput.py", O+"fileio/pointoutput.py"],
  [("accumulate/write/reset in update", O+"fileio/griddedoutput.py"), ("chunk dates", O+"fileio/pointoutput.py")])
p("P20", "Compact gridded output can always be expanded back onto the grid",
  "Everything the converter from compact region-of-interest output to full grids relies on (layout marker, grid geometry, pixel numbering, dimension name, fill value) is written by the output writer with the same name and meaning for file and in-memory output, so every pixel and coordinate of the expanded dataset is where the full-grid layout would have put it.",
  ["inputs", "configurations"], "for every grid, region of interest, variable dimensionality and output format",
  "One round trip on one domain cannot cover all grid geometries and variable shapes.",
  [O+"fileio/griddedoutput.py", O+"util.py"],
  [("layout attributes", O+"fileio/griddedoutput.py _create_dataset"), ("reconstruction", O+"util.py convert_roi_pixel_dataset_to_grid")])
p("P21", "Each pixel's result depends only on that pixel's own values",
  "In every vertical process (derived meteorology, snow, surface energy balance, soil, canopy, evapotranspiration), a value computed for one set of pixels is only ever combined with, or stored to, values of exactly the same pixels in the same order. No statistic over other pixels enters a pixel's result except in the explicitly spatial processes (interpolation, terrain and radiation reflection, glacier geometry, rain/snow line enforcement).",
  ["inputs", "configurations"], "for every region of interest, land cover distribution and pattern of missing data",
  "Mismatched pixel subsets either fail or mix pixels only for particular missing-data and land-cover patterns.",
  [O+"surface.py", O+"modules/canopy/canopy.py", O+"modules/evapotranspiration/evapotranspiration.py", O+"modules/snow"],
  [("boolean masks selecting pixel subsets", "all process modules"), ("local-to-global mask conversion", O+"model.py global_mask")])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P))
