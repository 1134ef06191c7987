#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one P(...) each)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
S = "src/sorcha/"
M = S + "modules/"
rows = []

def P(pid, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, (pid, len(title))
    rows.append(dict(id=pid, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

I, C, H, F = "inputs", "configurations", "histories", "fault_sequences"

P("P01", "Same seed, same inputs: same output",
  "A simulation's output is a function of its input files, its configuration and the random seed. Every random draw that can reach an output row comes from a generator derived only from the seed and the name of the consuming stage (linking draws: from the object's own observations), each stage keeps drawing from its one generator, and nothing that reaches the output, its order included, depends on the clock, the process, the environment or the iteration order of an unordered collection.",
  [I, C, "schedules"], "all inputs, configurations and seeds; all hash seeds, hosts and start times",
  "tests fix one seed in one interpreter and compare with a stored table; they never vary hash seed, clock or process, and cannot cover every draw site.",
  [S + "utilities/sorchaModuleRNG.py", S + "utilities/sorchaArguments.py", M + "PPRandomizeMeasurements.py", M + "PPDropObservations.py", M + "PPApplyFOVFilter.py", M + "PPMiniDifi.py", S + "ephemeris/pixel_dict.py", S + "ephemeris/simulation_driver.py"],
  [("per-module generators seeded from the base seed and the module name", S + "utilities/sorchaModuleRNG.py"), ("linking draws seeded from the object's own coordinates", M + "PPMiniDifi.py")])

P("P02", "Every input object is processed exactly once, whatever the chunk size",
  "The chunked main loop of both surveys reads consecutive blocks of the configured size until every object of the orbit table has been read, and stops then. Each block is processed once and none is skipped or re-read, also when a whole block is culled as too faint or has no observations.",
  [I, C], "all catalogue lengths, chunk sizes and combinations of empty chunks",
  "the tests run one or two catalogue sizes with one chunk size; off-by-one chunk arithmetic only shows for particular length/size pairs or empty chunks.",
  [S + "sorcha.py", S + "des.py", S + "readers/CombinedDataReader.py"],
  [("chunk loop", S + "sorcha.py:runLSSTSimulation"), ("chunk loop", S + "des.py:runDESSimulation"), ("block counters", S + "readers/CombinedDataReader.py")])

P("P03", "Each survey effect is applied exactly when its configuration asks for it",
  "In both survey pipelines an optional step (field-of-view filter, signal-to-noise limit, magnitude limit, detection efficiency, saturation limit, linking, distance and motion cuts, discovery filter, trailing loss, vignetting, randomisation, faint-object culling) acts on a non-empty chunk if and only if the configuration enables it, and at most once. The unconditional steps (pointing match, apparent magnitude, uncertainties) always act, and each step works on the result of the one before it, so that no step's result is lost.",
  [C, I], "all configurations (every combination of switches), all chunks",
  "there are thousands of switch combinations and the end-to-end tests run a handful; a step whose result is dropped or that hangs on a neighbour's switch passes them.",
  [S + "sorcha.py", S + "des.py", S + "utilities/sorchaConfigs.py"],
  [("pipeline body", S + "sorcha.py:runLSSTSimulation"), ("pipeline body", S + "des.py:runDESSimulation")])

P("P04", "Cuts act on measured quantities, in the documented order",
  "Trailing loss and vignetting are computed from true quantities before uncertainties, uncertainties before randomisation, randomisation before every cut, and linking or discovery after every other cut. Cuts judge the measured (randomised) magnitudes and positions and the depth at the source's location, and with randomisation off every measured quantity equals its true value; the true values stay in the table unchanged.",
  [C, I], "all configurations and observations",
  "with small uncertainties true and measured values nearly coincide, so example tables do not separate the two columns or the two orders.",
  [S + "sorcha.py", S + "des.py", M + "PPSNRLimit.py", M + "PPMagnitudeLimit.py", M + "PPBrightLimit.py", M + "PPDetectionProbability.py"],
  [("column hand-over", S + "sorcha.py:runLSSTSimulation")])

P("P05", "Threshold cuts keep exactly the rows on the right side of the limit",
  "The signal-to-noise limit keeps an observation if and only if its signal-to-noise ratio is greater than the limit; the magnitude limit if and only if its measured trailed-source magnitude is less than the limit; the saturation limit if and only if its measured PSF magnitude is not less than the limit, using the limit given for the observation's own filter when one per filter is configured. The kept rows are unchanged and in their order, and a wrongly typed saturation limit is an error.",
  [I, C], "all observation tables, limits and filter lists",
  "tests probe a few rows away from the limit and mostly one filter; comparison direction, equality and the pairing of limits with filters are only visible for other rows.",
  [M + "PPSNRLimit.py", M + "PPMagnitudeLimit.py", M + "PPBrightLimit.py"],
  [("row selection", M + "PPSNRLimit.py"), ("row selection", M + "PPMagnitudeLimit.py"), ("per-filter row selection", M + "PPBrightLimit.py")])

P("P06", "The circular field of view keeps exactly what lies inside it",
  "With the circular camera an observation is kept only if its measured position lies closer to its own field centre than the configured radius, and then with a probability equal to the configured fill factor, decided by a separate random draw per observation. Radius and fill factor take effect whenever they are set, zero included, and neither filter changes or reorders the rows it keeps.",
  [I, C], "all observation tables, radii and fill factors",
  "tests use radii and fill factors well inside their range and a handful of points.",
  [M + "PPApplyFOVFilter.py"], [("radius cut", M + "PPApplyFOVFilter.py:PPCircleFootprint"), ("fill factor cut", M + "PPApplyFOVFilter.py:PPSimpleSensorArea"), ("dispatch on the camera model", M + "PPApplyFOVFilter.py:PPApplyFOVFilter")])

P("P07", "The detector footprint keeps exactly the observations on a detector",
  "With a detector footprint (camera file or per-visit corners) an observation is kept if and only if it falls on a detector of its own visit, it is kept with the identifier (and depth) of that detector, and no observation is kept twice. When an edge threshold is configured, positions closer to a detector's edge than the threshold are excluded as well.",
  [I, C], "all observation tables, footprints and edge thresholds",
  "tests check a few points on the built-in camera; identifier alignment and duplicates only show for points spread over several detectors and visits.",
  [M + "PPFootprintFilter.py", M + "PPVisitsFootprintFilter.py", M + "PPApplyFOVFilter.py"],
  [("footprint search", M + "PPFootprintFilter.py:Footprint.applyFootprint"), ("per-visit corners", M + "PPVisitsFootprintFilter.py:PPVisitsFootprint")])

P("P08", "Detection efficiency: documented probability, one independent draw per row",
  "The detection probability of an observation is F/(1+exp((m-m5)/w)) of its measured PSF magnitude and its own limiting magnitude (per detector where known), with the configured peak F and width w; for the DES it is t*c/(1+exp(k*(m-m5))) with the visit's own c and k and the configured transient efficiency t. An observation is kept if and only if its own uniform draw does not exceed its probability, and the kept rows carry no other change.",
  [I, C], "all observation tables, efficiencies, widths and seeds",
  "tests compare a few probabilities; a swapped parameter, a shared draw or a wrong comparison needs other values to show.",
  [M + "PPFadingFunctionFilter.py", M + "PPDetectionProbability.py", M + "PPDropObservations.py", M + "DESFadingFunctionFilter.py", M + "DESDetectionProbability.py"],
  [("probability", M + "PPDetectionProbability.py"), ("draw", M + "PPDropObservations.py"), ("DES probability", M + "DESDetectionProbability.py")])

P("P09", "Linking is all-or-nothing per object and uses the configured limits",
  "The linking step treats each object on its own: all observations of an object get the same linked verdict, which depends only on that object's observations and the configured limits, each limit reaching the search in the unit the search expects. When unlinked objects are dropped exactly the observations of linked objects remain, when they are kept every observation remains and carries the verdict and the linking date, and no other column changes.",
  [I, C], "all observation tables and linking configurations",
  "tests link one or two objects at default limits; cross-object leakage and swapped or mis-scaled limits need other tables and limits.",
  [M + "PPLinkingFilter.py", M + "PPMiniDifi.py"],
  [("column and parameter hand-over", M + "PPLinkingFilter.py"), ("per-object search", M + "PPMiniDifi.py")])

P("P10", "DES distance, motion and discovery cuts",
  "The distance cut keeps all observations of an object that has at least one observation with heliocentric distance strictly between the two limits (au) and drops all others; the motion cut keeps exactly the observations whose total on-sky rate lies strictly between the two limits (deg/day). The discovery filter keeps or drops each object as a whole by the documented criteria, evaluated on that object's own observations.",
  [I, C], "all observation tables and limits",
  "tests use a few objects; object-wise versus row-wise selection and unit scaling need mixed objects to show.",
  [M + "PPDistanceandMotionCuts.py", M + "DESDiscoveryFilter.py"],
  [("distance and motion cuts", M + "PPDistanceandMotionCuts.py"), ("discovery criteria", M + "DESDiscoveryFilter.py")])

P("P11", "Signal-to-noise and uncertainties follow the LSST error model",
  "Each observation's photometric uncertainty and signal-to-noise ratio come from the LSST error model evaluated at that observation's own magnitude and depth: the inverse square of the signal-to-noise is (0.04-gamma)x+gamma*x^2 with x=10^(0.4(m-m5)), and the magnitude sigma is 2.5*log10(1+1/SNR), with the trailed-source uncertainty including the trailing loss of the point-source-equivalent detection. The astrometric uncertainty is the quadrature sum of the systematic floor and seeing over signal-to-noise, and magnitude sigma and signal-to-noise of one magnitude are always mutually consistent.",
  [I], "all magnitudes, depths and seeing values",
  "tests compare a few values; sign, unit and column mistakes that vanish at the tabulated points pass.",
  [M + "PPAddUncertainties.py"], [("error model", M + "PPAddUncertainties.py")])

P("P12", "Randomised measurements are centred on the truth with the row's own sigma",
  "Randomised photometry and astrometry add to each observation's true value a separate zero-mean normal deviate scaled by that observation's own uncertainty: magnitudes additively and positions isotropically on the sky, staying valid coordinates. The unperturbed position and magnitudes are preserved under their true names.",
  [I], "all observation tables and seeds",
  "tests compare stored draws for a few rows; a shared deviate or a sigma taken from another column or row needs other tables.",
  [M + "PPRandomizeMeasurements.py"], [("randomisation", M + "PPRandomizeMeasurements.py")])

P("P13", "Apparent magnitude combines H, colour, distance, phase, activity, light curve",
  "An observation's true trailed-source magnitude is the object's absolute magnitude in the main filter plus the colour of the observing filter (zero for the main filter itself) plus 5*log10(r*delta) with both distances in au, plus the configured phase function evaluated at the observation's phase angle with the object's parameters for that filter, plus the light curve's offset, combined with the activity model's brightness. Every observation gets the colour and phase parameters of its own filter, and observations without the needed colour or parameters end the run with an error instead of being given a value.",
  [I, C], "all objects, geometries, filters and phase functions",
  "tests cover one geometry per phase function; exchanging parameters of filters or distances needs multi-filter tables to show.",
  [M + "PPCalculateApparentMagnitude.py", M + "PPCalculateApparentMagnitudeInFilter.py", M + "PPApplyColourOffsets.py", M + "PPGetMainFilterAndColourOffsets.py"],
  [("magnitude", M + "PPCalculateApparentMagnitudeInFilter.py"), ("colours", M + "PPApplyColourOffsets.py")])

P("P14", "Trailing loss and vignetting only ever make detection harder",
  "The trailing loss is 1.25*log10(1+a*x^2/(1+b*x)) with x proportional to speed times exposure time over seeing, using the coefficients of the requested model: never negative, zero for a stationary source. The vignetted depth is the field depth minus a dimming that depends only on the distance of the observation's true position from its field centre, is never negative, and never decreases outwards.",
  [I], "all rates, seeing values, exposure times and field offsets",
  "sampled points cannot show sign and monotonicity over the whole range.",
  [M + "PPTrailingLoss.py", M + "PPVignetting.py"], [("trailing loss", M + "PPTrailingLoss.py"), ("dimming", M + "PPVignetting.py")])

P("P15", "Each observation is paired with its own visit in a requested filter",
  "Only visits in the configured observing filters enter the simulation, and every observation is joined to the one visit with the same field identifier and carries that visit's time, filter, seeing and depth. Observations without such a visit are dropped, none is duplicated, and a disagreement between an observation's time and its visit's time ends the run with an error.",
  [I, C], "all pointing databases, filter subsets and ephemerides",
  "tests use a small pointing table; join keys and filter subsetting need other tables.",
  [M + "PPMatchPointingToObservations.py", M + "PPReadPointingDatabase.py"],
  [("join", M + "PPMatchPointingToObservations.py"), ("pointing query", M + "PPReadPointingDatabase.py")])

P("P16", "Every surviving observation of every chunk reaches the output, once",
  "All rows left at the end of a non-empty chunk are handed to the writer exactly once (or collected, when results are returned), for each output format a chunk is appended after the earlier chunks with one header or one table, and the file has the documented columns for the requested column set. When results are returned instead of written nothing is written to disk.",
  [I, C], "all chunk sequences, formats and column sets",
  "tests write one chunk or two; lost or repeated chunks, repeated headers or column sets for other configurations are not sampled.",
  [S + "sorcha.py", S + "des.py", M + "PPOutput.py"],
  [("writers", M + "PPOutput.py"), ("end of chunk", S + "sorcha.py:runLSSTSimulation")])

P("P17", "Rounding touches only the intended columns, by the configured decimals",
  "When position (or magnitude) decimals are configured, exactly the angular position (or magnitude) columns present in the output are rounded to that many decimals, zero included; all other columns, and all columns when decimals are not configured, are written at full precision. Rounding affects only what is written, never a selection.",
  [C, I], "all decimals settings and column sets",
  "tests use one decimals setting on one table.",
  [M + "PPOutput.py", S + "utilities/sorchaConfigs.py"], [("rounding", M + "PPOutput.py:PPWriteOutput")])

P("P18", "The statistics tally summarises exactly the written observations",
  "For every object and filter the statistics list the number of observations, the minimum, maximum and median trailed-source magnitude and the minimum and maximum phase angle over exactly the observations being output for that object and filter, with the linking verdict and date when linking is on. Chunks are appended under one header.",
  [I, C], "all observation tables and chunk sequences",
  "tests check one small table.",
  [M + "PPStats.py"], [("tally", M + "PPStats.py")])

P("P19", "No existing output is overwritten or deleted unless the user forces it",
  "A command that finds a file it would write already present stops with an error before changing anything unless the force option is given, and with the force option it removes exactly the stale outputs of that name. No other file is deleted or truncated.",
  [I, C, H], "all commands, file name patterns and prior directory contents",
  "tests try one pre-existing file per command, without special characters or several suffixes.",
  [S + "utilities/sorchaCommandLineParser.py", S + "utilities/sorchaArguments.py", "src/sorcha_cmdline/run.py", "src/sorcha_cmdline/outputs.py", "src/sorcha_cmdline/init.py", S + "utilities/sorcha_copy_configs.py", S + "utilities/sorcha_copy_demo_files.py", S + "utilities/createResultsSQLDatabase.py", S + "utilities/check_output_logs.py"],
  [("stale file guard", S + "utilities/sorchaCommandLineParser.py:warn_or_remove_file")])

P("P20", "Input files are only read",
  "Nothing in a run opens for writing, modifies, renames or removes a user-supplied input: orbits, physical parameters, ephemerides, pointing and visit databases, configuration and footprint files. Files are written only under the output location, the statistics and ephemeris output stems given by the user and the auxiliary-data cache.",
  [I, C, F], "all runs",
  "tests do not monitor every file a run touches.",
  [S + "readers", S + "modules", S + "ephemeris", S + "utilities"],
  [("readers", S + "readers"), ("pointing database", M + "PPReadPointingDatabase.py")])

P("P21", "The completion message appears only after all work is done",
  "A log ends with the completion message only if every chunk has been processed and written and the output has been indexed: on every way out of a run before that point the message is not written, nothing that can fail follows it, and the log checker recognises exactly the message that is written.",
  [C, F, I], "all configurations, all failure points",
  "tests only look at complete runs and hand-written logs.",
  [S + "sorcha.py", S + "des.py", S + "utilities/check_output_logs.py", S + "utilities/sorchaGetLogger.py"],
  [("completion message", S + "sorcha.py:runLSSTSimulation"), ("classification", S + "utilities/check_output_logs.py")])

P("P22", "Every fatal condition is logged as an error and ends in a non-zero exit",
  "Whenever a run stops on a detected problem, an error is written to the log first and the process ends with a non-zero status and a message; no detected problem is swallowed or ends in a success status. Error reports never fail themselves.",
  [I, C, F], "all fatal conditions in all parts of the program",
  "tests trigger some fatal conditions and check only the exception type.",
  [S, "src/sorcha_cmdline"], [("log-then-exit convention", S)])

P("P23", "Invalid configuration values are rejected before any processing",
  "Every configuration value that is out of its documented range, of the wrong type, missing though required, or contradictory to another value ends the run with an error before processing starts, and every value in range is accepted and used as given, zero and boundary values included.",
  [C], "all configuration files",
  "tests feed one bad value for some keys; most keys, boundaries and combinations are not sampled.",
  [S + "utilities/sorchaConfigs.py"], [("per-section validation", S + "utilities/sorchaConfigs.py")])

P("P24", "Each configured value and option reaches exactly the step it controls",
  "Each configuration key and command-line option is stored under its own name and handed, in the right place and unit, to the step it documents, in both survey pipelines; no step receives the value of another key or a hard-wired one.",
  [C], "all configuration values and command lines",
  "tests run with default-like values, where exchanged or ignored values coincide.",
  [S + "sorcha.py", S + "des.py", "src/sorcha_cmdline/run.py", S + "utilities/sorchaArguments.py", S + "utilities/sorchaConfigs.py"],
  [("argument hand-over", S + "sorcha.py:runLSSTSimulation"), ("command line", "src/sorcha_cmdline/run.py:execute")])

P("P25", "Objects are matched between input files by identifier only",
  "Orbits, physical parameters, complex parameters and ephemerides are joined by object identifier, never by position: each object or observation row carries exactly the values its identifier has in each file, whatever the order of the files. If the auxiliary files do not list the same objects the run ends with an error before processing.",
  [I], "all input orderings and identifier sets",
  "tests use files listing the objects in the same order.",
  [S + "readers/CombinedDataReader.py", S + "readers/ObjectDataReader.py"],
  [("join", S + "readers/CombinedDataReader.py"), ("consistency check", S + "readers/CombinedDataReader.py:check_aux_object_ids")])

P("P26", "A reader returns exactly the requested objects, in every file format",
  "For CSV, whitespace, HDF5 and database inputs, reading rows from a start position returns exactly the requested number of rows from there (or what remains) and reading by identifier returns exactly all rows with those identifiers, in file order. Identifiers are always text, and rows are never lost between the header and the first block.",
  [I, C], "all files, block sizes and identifier lists",
  "tests read a few blocks of one file per format.",
  [S + "readers/CSVReader.py", S + "readers/HDF5Reader.py", S + "readers/DatabaseReader.py", S + "readers/ObjectDataReader.py"],
  [("block reads", S + "readers"), ("identifier reads", S + "readers")])

P("P27", "Impossible or inconsistent orbits are rejected, each format is read as itself",
  "An orbit table is accepted only if every row has the same known format and that format's own columns, and hyperbolic or negative elements that the format cannot express are rejected with an error. Each format's elements are read with their own meaning and units: heliocentric formats use the Sun's gravity and are shifted to the barycentre, barycentric ones use the system's gravity and are not.",
  [I], "all orbit tables and formats",
  "tests contain one or two orbits per format.",
  [S + "readers/OrbitAuxReader.py", S + "ephemeris/simulation_parsing.py"],
  [("validation", S + "readers/OrbitAuxReader.py"), ("parsing", S + "ephemeris/simulation_parsing.py:parse_orbit_row")])

P("P28", "Ephemeris columns carry the quantity and unit they are named after",
  "The internally generated ephemeris lists, for each object and visit, the identifiers, time, distance, rates and Cartesian states in the columns named after them and in the unit of the name, and when written and read back as an external ephemeris the same columns are expected. Light-time-corrected positions are relative to the observer, Sun-relative columns relative to the Sun.",
  [I, C], "all objects and visits",
  "tests compare a small table within tolerances; a swap of nearly equal columns or rarely used columns passes.",
  [S + "ephemeris/simulation_driver.py", S + "ephemeris/simulation_geometry.py", S + "readers/EphemerisReader.py"],
  [("row assembly", S + "ephemeris/simulation_driver.py"), ("accepted columns", S + "readers/EphemerisReader.py")])

P("P29", "Faint-object culling never removes an object that could be seen",
  "An object is removed before ephemeris generation only if even at its brightest possible geometry its magnitude stays fainter than the deepest visit by the safety margin in every observing filter. Objects that come close enough for that bound not to hold are always kept, and the filter alters no other object.",
  [I, C], "all orbits, colours and pointing sets",
  "tests cull a few obviously faint objects; a wrong bound loses observable objects only for particular colours and orbits.",
  [M + "PPFaintObjectCullingFilter.py"], [("bound", M + "PPFaintObjectCullingFilter.py")])

P("P30", "Every registered activity and light-curve model fits the calls made to it",
  "Any model that can be selected by name offers every operation the simulation calls on such models, with a compatible signature, under a unique non-empty name, and an unknown model name ends the run with an error. Selecting a model requires the complex-parameters file.",
  [C], "all model names and registered models",
  "tests call the models directly with hand-picked arguments, not in the way every caller does.",
  [S + "activity", S + "lightcurves", M + "PPCalculateApparentMagnitude.py", M + "PPFaintObjectCullingFilter.py"],
  [("registries", S + "activity/activity_registration.py"), ("callers", M + "PPCalculateApparentMagnitude.py")])

P("P31", "Log checking and result merging account for every file",
  "The log checker classifies each log file it finds exactly once: successful if and only if its last line carries the completion message, otherwise unsuccessful with its last line. Building a results database takes in every matching result file and input file exactly once, and never its own output.",
  [I, H], "all directory contents, log contents",
  "tests use a prepared directory.",
  [S + "utilities/check_output_logs.py", S + "utilities/createResultsSQLDatabase.py"],
  [("classification", S + "utilities/check_output_logs.py"), ("merge", S + "utilities/createResultsSQLDatabase.py")])

P("P32", "The candidate search hands every nearby object to the exact check",
  "For each visit the candidate list contains every object whose track between the surrounding picket times crosses a sky pixel overlapping the visit's search circle, neighbouring pixels included, and is brought up to date for the visit's time also when visits are not sorted. The exact check then keeps exactly the candidates within the search radius of the visit centre.",
  [I, C], "all object sets and visit sequences",
  "tests run a short sorted visit sequence.",
  [S + "ephemeris/pixel_dict.py", S + "ephemeris/simulation_driver.py", S + "ephemeris/simulation_setup.py"],
  [("pickets", S + "ephemeris/pixel_dict.py:PixelDict"), ("search radius", S + "ephemeris/simulation_driver.py"), ("visit pixels", S + "ephemeris/simulation_setup.py:precompute_pointing_information")])

P("P33", "Row selections and row values stay aligned",
  "Wherever per-row values computed apart from the table (random draws, probabilities, detector identifiers, magnitudes) are combined with it, each value meets the row it was computed for, for every combination of enabled filters. Row positions are never used as labels on a table whose labels may have gaps, nor labels as positions.",
  [C, I], "all combinations and orders of enabled filters, all tables",
  "misalignment needs a particular pair of filters where the first leaves gaps in the labels; tests run filters one at a time.",
  [S + "sorcha.py", S + "des.py", S + "modules"], [("label resets after each filter", M)])

P("P34", "Survey and command dispatch is total and exact",
  "Every accepted survey name runs that survey's own simulation with that survey's own configuration rules, footprint and limits, any other name ends with an error, and every sub-command forwards to its own implementation. Every configuration choice the validation accepts has an implementation behind it.",
  [C], "all survey names, camera models, formats, phase functions and sub-commands",
  "tests try one or two names.",
  ["src/sorcha_cmdline/run.py", "src/sorcha_cmdline/main.py", S + "utilities/sorchaConfigs.py", M + "PPFootprintFilter.py", M + "PPVisitsFootprintFilter.py"],
  [("survey dispatch", "src/sorcha_cmdline/run.py:execute"), ("choice lists", S + "utilities/sorchaConfigs.py")])

P("P35", "Auxiliary data files: configured names and sources are the ones used",
  "Each auxiliary ephemeris file is fetched from the source configured for that very file and stored and looked up under that same name, in the cache directory the user gave. The kernel list written for the ephemeris engine names every kernel required, and nothing is downloaded again when present.",
  [C, H], "all auxiliary configurations and cache states",
  "tests stub the downloads and use default names.",
  [S + "utilities/sorchaConfigs.py", S + "utilities/retrieve_ephemeris_data_files.py", S + "utilities/generate_meta_kernel.py", S + "ephemeris/simulation_data_files.py", S + "ephemeris/simulation_setup.py"],
  [("names and sources", S + "utilities/sorchaConfigs.py:auxiliaryConfigs"), ("fetch", S + "utilities/retrieve_ephemeris_data_files.py")])

P("P36", "The configurations and demo that ship with the program are accepted by it",
  "Every shipped configuration file and the advertised demo command use only sections, keys and options the program reads, give every key the survey requires, and pass its validation.",
  [C], "all shipped configuration files and demo commands",
  "tests load some of the shipped files, and unknown keys are silently ignored.",
  [S + "data/survey_setups", S + "data/demo", S + "utilities/sorcha_demo_command.py", S + "utilities/sorchaConfigs.py"],
  [("shipped configurations", S + "data/survey_setups"), ("demo command", S + "utilities/sorcha_demo_command.py")])

P("P37", "Ephemerides are numerically accurate",
  "Predicted positions agree with an independent integration of the same orbit to the documented accuracy.",
  [I], "all orbits and times", "tests compare a few objects with stored values.",
  [S + "ephemeris/simulation_driver.py", S + "ephemeris/orbit_conversion_utilities.py"], [("integration", S + "ephemeris/simulation_driver.py")])
P("P38", "Orbit element conversions are mutually inverse",
  "Converting any orbit from one element set to Cartesian states and back gives the orbit again to floating-point accuracy.",
  [I], "all orbits, all eccentricities", "tests convert a few orbits.",
  [S + "ephemeris/orbit_conversion_utilities.py"], [("conversions", S + "ephemeris/orbit_conversion_utilities.py")])
P("P39", "The linking search finds exactly the trackable objects",
  "An object is linked with the configured efficiency if and only if its observations contain the configured number of tracklets on distinct nights inside the window.",
  [I, C], "all observation histories", "tests link a few histories.",
  [M + "PPMiniDifi.py"], [("search", M + "PPMiniDifi.py")])
P("P40", "Results do not depend on the chunk size up to random draws",
  "With randomness off, splitting the catalogue differently gives the same set of output rows.",
  [I, C], "all chunk sizes", "tests use one chunk size.",
  [S + "sorcha.py"], [("chunk loop", S + "sorcha.py:runLSSTSimulation")])

with open(OUT, "w") as fh:
    for r in rows:
        fh.write(json.dumps(r) + "\n")
print(len(rows), "properties")
