prop("C09", "Wind angles are directions: full turns make no difference",
     "Two wind angles that differ by full turns denote the same direction: "
     "every polar diagram reduces a given angle to one turn before it is "
     "stored, looked up, compared with stored angles or used for "
     "interpolation or evaluation. No diagram ever contains or reports a "
     "wind angle outside one turn.",
     ["inputs"],
     "all wind angles (negative and above a full turn) in every constructor, "
     "update and evaluation of every kind of diagram",
     "The tests use angles between 0 and 360 almost everywhere.",
     [P],
     [("modulo reduction before storing", P + "_polardiagrampointcloud.py"),
      ("modulo reduction of looked up angles",
       P + "_polardiagramtable.py"),
      ("modulo reduction before evaluation", P + "_polardiagramcurve.py")],
     tech="taint-style dataflow analysis of un-normalised angles, value provenance",
     note=TRUST + "Caller angles are `un-normalised` until reduced by a "
          "full turn in their unit; the fact must not reach diagram state, "
          "comparisons or components.")

prop("C10", "Columns and quantities are never interchanged",
     "Wind speeds, wind angles, boat speeds, apparent wind, latitudes and "
     "longitudes keep their meaning: points, slices, records and component "
     "arguments hold each quantity in its documented column, row or key, "
     "evaluations return boat speeds, positions are latitude before "
     "longitude, and quantities of different kind are never added or "
     "compared.",
     ["inputs", "programs"],
     "all inputs of all operations, every documented argument form",
     "Swapped columns of plausible magnitude give plausible numbers; tests "
     "compare few of them, often with symmetric data.",
     [P, CORE + "computing.py", PR + "interpolator.py", MOD,
      CR + "basics.py", PIPE + "extensions.py"],
     [("column order of point arrays", CORE + "computing.py"),
      ("row order of slices", P + "_basepolardiagram.py"),
      ("standard names of record columns", CORE + "constants.py")],
     tech="quantity (role) inference over abstract arrays and records, value provenance",
     note=TRUST + "Only values whose quantity is tracked are judged.")

prop("C11", "What is written to a file is what is read back",
     "Writing a polar diagram or a gridded weather model to a file and "
     "reading that file gives an object of the same kind with the same wind "
     "speeds, wind angles, boat speeds, points, parameters, model function, "
     "sails, diagrams, times, positions and data, in the same order and "
     "without rounding. This holds for every format that can be written "
     "(native, array, ORC, OpenCPN) and for every model function the package "
     "offers; files of sub-diagrams lie next to the main file.",
     ["inputs", "histories"],
     "all diagrams and weather models of every class in every format the "
     "class can write",
     "The tests compare a few short tables with small numbers; rounding, "
     "reordering or a lost column of unusual data stays invisible.",
     [P + "_reading.py", P + "_polardiagramtable.py",
      P + "_polardiagrampointcloud.py", P + "_polardiagramcurve.py",
      P + "_polardiagrammultisails.py", MOD + "weather_model.py"],
     [("format dispatch and readers", P + "_reading.py"),
      ("table writers", P + "_polardiagramtable.py"),
      ("curve writer and reader", P + "_polardiagramcurve.py"),
      ("multiple sails writer and reader",
       P + "_polardiagrammultisails.py"),
      ("weather encoder and reader", MOD + "weather_model.py")],
     tech="value flow through symbolic files (abstract interpretation of "
          "writer and reader)",
     note=TRUST + "Files are sequences of symbolic records; text keeps the "
          "value it was made from. Equality is decided per column and "
          "order, not per digit (repr of floats is trusted).")

prop("C12", "Optional packages are optional",
     "With only numpy, scipy and matplotlib installed the package and all "
     "its modules can be imported and every operation works; any subset of "
     "the optional packages (pandas, pynmea2, netCDF4, meteostat) may be "
     "missing. Only the operations documented to need an optional package "
     "fail then - with an import error, never because of an undefined name "
     "or attribute.",
     ["programs"],
     "every subset of the optional packages that matters (all present, each "
     "one absent, all absent), all modules and all public operations",
     "The tests run in one environment.",
     ["hrosailing/__init__.py", MOD + "weather_model.py",
      PR + "datahandler.py"],
     [("guarded imports", MOD + "weather_model.py"),
      ("pandas detection of the handlers", PR + "datahandler.py")],
     tech="name binding analysis per environment (abstract interpretation "
          "of module bodies and clients)",
     note=TRUST + "Environments: none, each one and all of the optional "
          "packages absent; undeclared third-party packages never exist.")

prop("C13", "Only the named file is touched, and it is always closed",
     "Reading a file never changes any file, writing replaces the content of "
     "the file the caller names (and, for multiple sails, of files next to "
     "it) and no other, and all other operations leave the file system "
     "alone. Every file the library opens is closed again when the "
     "operation returns or raises, whatever the file contains.",
     ["inputs", "faults"],
     "every operation, every path and content, an exception at every call "
     "while a file is open",
     "The tests read small valid files and never look at handles or other "
     "files.",
     [P + "_reading.py", P + "_polardiagramtable.py",
      P + "_polardiagrampointcloud.py", P + "_polardiagramcurve.py",
      P + "_polardiagrammultisails.py", MOD + "weather_model.py",
      PR + "datahandler.py"],
     [("reader", P + "_reading.py"),
      ("table writer", P + "_polardiagramtable.py"),
      ("weather writer and reader", MOD + "weather_model.py"),
      ("log readers", PR + "datahandler.py")],
     tech="typestate analysis of file objects with exceptional exits",
     note=TRUST + "File objects made by open(); files opened inside "
          "external libraries are managed by them.")

prop("C14", "Nothing read from a file or argument is executed",
     "Text and numbers from files, logs and arguments are data: no "
     "operation evaluates, executes, imports or unpickles them or hands "
     "them to a shell. Values in files are parsed as literals, and names of "
     "model functions are only looked up among the functions the package "
     "offers.",
     ["inputs"],
     "all file contents and string arguments of all operations",
     "A test cannot enumerate malicious files; evaluating works for all "
     "harmless ones.",
     [P + "_reading.py", P + "_polardiagramcurve.py",
      PR + "datahandler.py", MOD + "weather_model.py"],
     [("literal parsing of log entries", PR + "datahandler.py"),
      ("look up of model functions", P + "_polardiagramcurve.py")],
     tech="taint analysis to execution sinks",
     note=TRUST + "Sinks: eval, exec, compile, dynamic import, unpicklers, "
          "shells.")

prop("C17", "Invalid arguments are rejected, valid boundary values accepted",
     "Every documented restriction of an argument is enforced with the "
     "documented exception: positive and non-negative parameters, percentages, "
     "bounds, wind speeds, resolutions, shapes, finite values, numbers of "
     "parameters or keys, unknown names, formats and winds, empty inputs and "
     "positions outside a grid. Values on the permitted side of the border - "
     "zero where it is allowed, the end points of closed ranges, every "
     "matching shape - are accepted.",
     ["inputs"],
     "for every documented restriction all values outside it (a whole "
     "interval of values, each wrong shape of a list, each position of a "
     "non-finite number) and the border values inside it",
     "The tests try one invalid value for some of the restrictions.",
     [P + "_polardiagramtable.py", P + "_polardiagrampointcloud.py",
      P + "_polardiagramcurve.py", P + "_basepolardiagram.py",
      PR + "interpolator.py", PR + "neighbourhood.py", PR + "filter.py",
      PR + "sampler.py", PR + "weigher.py", CORE + "computing.py",
      CORE + "data.py", MOD + "weather_model.py"],
     [("resolution checks", P + "_polardiagramtable.py"),
      ("checks of new points", P + "_polardiagrampointcloud.py"),
      ("parameter checks of components", PR + "neighbourhood.py")],
     tech="interval, shape and finiteness analysis with exceptional exits",
     note=TRUST + "A call alarms only if no path of the analysed call can "
          "raise the documented exception (or, for permitted values, if "
          "every path raises).")

prop("C15", "Data containers keep every value in its row and column",
     "A data container holds exactly the values put into it, each at the row "
     "and under the name it was given, with missing values only where a "
     "column had none: creating, reading rows, columns, slices and masks, "
     "appending, extending, filling, updating, compressing, concatenating, "
     "deleting, renaming, stripping and renaming to standard names neither "
     "lose, duplicate, shift nor exchange values. All columns have as many "
     "entries as the container has rows. Weighted points keep every weight "
     "with its point.",
     ["inputs", "histories"],
     "containers of a few rows and columns whose cells are arbitrary and "
     "pairwise independent values, every documented operation and form of "
     "its arguments",
     "The tests compare single examples, often with equal values in "
     "different places, and not the number of rows after an update.",
     [CORE + "data.py"],
     [("container operations", CORE + "data.py")],
     tech="provenance analysis (which input cell every output cell holds)",
     note=TRUST + "Shapes are fixed (2 to 5 rows), cells are symbolic marks "
          "standing for any value; alarms only if the mark found is "
          "definitely not the documented one.")
prop("C16", "Boat speeds stay with the wind they were given for",
     "In every polar diagram a boat speed belongs to the wind speed and wind "
     "angle it was given with: building a diagram in any order, looking an "
     "entry up, slices, points, changed entries, added points, mirroring (a "
     "wind angle becomes its negative, wind speed and boat speed stay), "
     "several sails and files written and read back never pair a boat speed "
     "with another wind, lose or duplicate one. Changing entries changes the "
     "addressed entries only.",
     ["inputs", "histories"],
     "tables, clouds and sail collections with known winds in any order "
     "whose boat speeds are arbitrary and pairwise independent, every form "
     "of the arguments",
     "The tests use sorted resolutions and few values; a permutation that "
     "only moves some entries passes them.",
     [P + "_polardiagramtable.py", P + "_polardiagrampointcloud.py",
      P + "_polardiagrammultisails.py", P + "_basepolardiagram.py",
      P + "_reading.py"],
     [("sorting of tables", P + "_polardiagramtable.py"),
      ("entries of tables", P + "_polardiagramtable.py"),
      ("slices", P + "_polardiagrampointcloud.py"),
      ("files", P + "_reading.py")],
     tech="provenance analysis (which input cell every output cell holds)",
     note=TRUST + "Winds are known, boat speeds are abstract marks standing "
          "for any value; alarms only if the mark found is definitely not "
          "the one given for that wind.")
prop("C18", "Processing steps keep the values of a measurement together",
     "Reading a file gives one row per record with every value in the column "
     "of its name and in the documented form, also for times, positions and "
     "apparent wind. Missing values are only filled from rows close enough in "
     "time (or removed with their row), smoothing keeps the rows it does not "
     "concern, and filtering, injecting zeros, removing or adding influences, "
     "adding weather and extending a diagram keep each wind with its own "
     "boat speed, weight and conditions in the given order. The statistics "
     "reported of a step are those of the rows it really removed, filled or "
     "added.",
     ["inputs", "environments"],
     "records whose values are arbitrary and pairwise independent, with "
     "missing values at the ends, in between and across long gaps; csv with "
     "and without pandas, NMEA with southern positions, missing halves and "
     "sentences of no interest",
     "A value taken from the neighbouring row is a plausible measurement, so "
     "example tests with a few similar rows do not notice it.",
     [PR],
     [("data handlers", PR + "datahandler.py"),
      ("imputators", PR + "imputator.py"),
      ("influence models", MOD + "influencemodel.py"),
      ("injectors", PR + "injector.py")],
     tech="provenance analysis (which row every value of the result is from)",
     note=TRUST + "Missing values and times are known, all other values are "
          "marks; pynmea2 and pandas are replaced by client modules.")
prop("C19", "Weather models answer with the weather of the place and time asked",
     "A gridded weather model returns, for every grid point, exactly the "
     "stored values of that time, latitude and longitude under their names, "
     "between grid points the affine interpolation of the surrounding grid "
     "points, and refuses points outside its grid; this holds for given "
     "data, netCDF files in ascending or descending order with any order of "
     "dimensions, and fetched data with places without records. Several "
     "models combine their answers and skip models without weather for the "
     "point unless told otherwise.",
     ["inputs", "environments"],
     "gridded data, netCDF files and meteostat records whose values are "
     "arbitrary and pairwise independent, every grid point and points on "
     "edges, faces and inside of cells",
     "The tests read one small grid at a few points; weather of a "
     "neighbouring hour or a mirrored latitude is plausible weather.",
     [MOD + "weather_model.py"],
     [("grid lookup and interpolation", MOD + "weather_model.py"),
      ("netCDF index handling", MOD + "weather_model.py"),
      ("combining models", MOD + "weather_model.py")],
     tech="provenance analysis with affine forms over stored values",
     note=TRUST + "Grid coordinates are known, stored values abstract marks; "
          "netCDF4, meteostat and pandas are replaced by client modules that "
          "hand out the stored marks.")
prop("C21", "Interpolated boat speeds weigh the neighbouring points as documented",
     "Evaluating a diagram or interpolating weighted points gives exactly the "
     "combination of known boat speeds the method defines: every considered "
     "point counts with the documented function of its distance and weight, "
     "points outside the neighbourhood do not count, the weights are "
     "normalised, and at a measured point the measured boat speed is "
     "returned. Bilinear interpolation uses the four corners of the cell and "
     "refuses points outside of the grid, curves use the stored parameters "
     "and angle unit, and a set of sails answers with the fastest sail.",
     ["inputs"],
     "all boat speeds at point sets, tables and queries with known winds: "
     "near, far, on, between and outside of the points, all interpolators "
     "and neighbourhoods, default and custom norms and distributions",
     "The tests compare a few numbers to ones the implementation once gave; "
     "a mean with slightly wrong weights is a plausible boat speed.",
     [PR + "interpolator.py", PR + "neighbourhood.py", P],
     [("interpolators", PR + "interpolator.py"),
      ("neighbourhoods", PR + "neighbourhood.py"),
      ("evaluating diagrams", P)],
     tech="provenance analysis with linear forms over boat speeds",
     note=TRUST + "Winds are known and boat speeds abstract; coefficients are "
          "constant-propagated and compared up to rounding.")
prop("C20", "Weighers give every point its documented weight",
     "A weigher returns one weight per point, computed from exactly the points "
     "and attributes the documentation names: equal weights, membership and "
     "mean deviation in a cylinder around the point, fluctuation in a time "
     "span around it, or a fuzzy truth of the point. Sums, differences, "
     "products, quotients, negatives and powers of weighers (also with "
     "numbers) weigh every point with the same operation on the weights of "
     "their parts. Statistics describe the weights that were returned.",
     ["inputs"],
     "all boat speeds, levels and scales at point sets with known winds and "
     "times, arrays and containers, all restrictions of attributes, all "
     "operators and nestings in the list",
     "The tests weigh three points and never look at composed weighers; a "
     "wrong weight only changes which points are filtered away.",
     [PR + "weigher.py"],
     [("composed weighers", PR + "weigher.py"),
      ("cylinder and fluctuation weights", PR + "weigher.py"),
      ("fuzzy truths", PR + "weigher.py")],
     tech="provenance analysis with polynomial forms over weights and speeds",
     note=TRUST + "Winds and times are known, weights and boat speeds "
          "abstract; order is decided by ranges of differences.")
prop("C22", "Quality assurance reports the documented error statistics",
     "The reported largest, smallest, average and average squared errors are "
     "those of the absolute differences between the measured boat speeds and "
     "the values of the diagram at the same winds; values at wind angle zero, "
     "the number of distinct test cases and the spread within equal test "
     "cases are computed as documented.",
     ["inputs"],
     "all boat speeds in known order at test points with known winds, any "
     "diagram",
     "The tests look at one exact diagram; wrong statistics are just numbers "
     "in a report.",
     [PIPE + "quality_assurance.py"],
     [("error statistics", PIPE + "quality_assurance.py")],
     tech="provenance analysis with polynomial forms over boat speeds",
     note=TRUST + "Ranges of the abstract values keep their order known.")
prop("C30", "True and apparent wind are converted by the wind triangle, both ways",
     "Apparent wind is the vector sum of true wind and the boat's own motion: "
     "a converted point holds the length of that vector, its angle to the "
     "boat within one turn and on the same side, and the unchanged boat "
     "speed. Converting there and back gives the original wind speed, wind "
     "angle and boat speed, point by point.",
     ["inputs"],
     "all wind speeds, boat speeds and wind angles (windward, leeward, both "
     "sides, beyond one turn, negative), lists and arrays",
     "The tests compare a handful of points; a sign wrong for one side or for "
     "angles beyond one turn gives plausible winds.",
     [CORE + "computing.py"],
     [("conversion of wind", CORE + "computing.py")],
     tech="value analysis over symbolic terms, compared with the documented "
          "formula by random interpretation",
     note=TRUST + "Winds are abstract numbers within ranges; two terms are "
          "taken as equal if all interpretations of their marks agree.")
prop("C23", "Model functions compute their documented formula",
     "Every model function offered for polar curves computes the documented "
     "formula of wind speed, wind angle and its parameters, with the "
     "documented number and order of parameters, value by value for arrays "
     "as for single numbers. Boat speeds of curves, fitted parameters and "
     "files all refer to these formulas.",
     ["inputs"],
     "all wind speeds, wind angles and parameters, arrays and numbers",
     "The tests compare no value of a model function with its formula.",
     [CORE + "modelfunctions/_models2d.py"],
     [("model functions", CORE + "modelfunctions/_models2d.py")],
     tech="value analysis over symbolic terms, compared with the documented "
          "formula by random interpretation",
     note=TRUST + "Winds and parameters are abstract numbers within ranges.")
prop("C24", "Globe models agree with the geometry of the globe",
     "Projecting positions and converting the result back gives the same "
     "latitudes and longitudes, distances are lengths of great circles (on "
     "the sphere) or on the map (Mercator) scaled by the given radius, and a "
     "shortest path consists of the requested number of equally spaced "
     "positions that starts and ends at the given places.",
     ["inputs"],
     "all latitudes, longitudes and radii, lists and arrays of positions",
     "The tests look at a few places on the equator and the meridian.",
     [MOD + "globe_model.py"],
     [("sphere and Mercator projection", MOD + "globe_model.py")],
     tech="value analysis over symbolic terms, compared with the documented "
          "formula by random interpretation",
     note=TRUST + "Positions and radius are abstract numbers within ranges; "
          "paths along which the projection pole is moved are not covered.")
na("C31", "Interpolation and regression are accurate",
   "Interpolated and fitted boat speeds approximate the measured ones as "
   "well as the method allows.",
   ["inputs"], "all point sets and weights", "Sampled points only.",
   [PR + "interpolator.py", PR + "regressor.py"],
   "approximation quality is a statement about floating point results and "
   "external optimisers (the weights of an interpolation are covered by C21)")
na("C32", "Weather routing costs and isochrones are accurate",
   "Costs along a route are those of the weather met on the way, and "
   "isochrones end at the requested time.",
   ["inputs"], "all diagrams, positions and weather", "Sampled routes only.",
   [CR + "basics.py"],
   "costs and end points come out of an external solver of differential "
   "equations and of a loop that refines its own step size until it fits; "
   "no static argument in reach bounds their error")
na("C33", "Samplers produce the requested number of points inside the hull",
   "A sampler returns exactly the requested number of points, inside the "
   "smallest circle or the convex hull of the data.",
   ["inputs"], "all point sets and sample numbers", "Sampled sets only.",
   [PR + "sampler.py"],
   "rejection sampling: count and position depend on random floating point "
   "values and termination is probabilistic")
prop("C34", "Filters and neighbourhoods keep exactly the documented points",
     "A quantile filter keeps exactly the points whose weight is at least "
     "the given percentile of all weights, a bound filter exactly those "
     "whose weight lies between its bounds. A scaling ball contains the "
     "requested number of nearest points and no point further away; the "
     "other neighbourhoods contain exactly the points of the set they "
     "describe, border included.",
     ["inputs"],
     "all weights, distances and percentages, in every order, with ties",
     "The tests look at one vector of weights; points lost or kept too many "
     "only show as slightly different diagrams.",
     [PR + "filter.py", PR + "neighbourhood.py"],
     [("kept points", PR + "filter.py"),
      ("membership", PR + "neighbourhood.py")],
     tech="value analysis over numbers of which only the order is known",
     note=TRUST + "Weights and distances are abstract numbers in pairwise "
          "disjoint ranges, and known numbers with ties.")
prop("C35", "Plots are handed the points of the diagram",
     "For every requested wind speed a plot consists of the wind angles (in "
     "radians on polar axes) in ascending order with the boat speeds of the "
     "diagram, one line for every sail, or of their convex hull if asked "
     "for; plots of all points show every point at its wind or in the polar "
     "plane at the height of its wind speed. Colors and legend "
     "entries belong to the wind speed or boat speed as documented.",
     ["inputs"],
     "all boat speeds, every kind of plot, several sails, colors and hulls",
     "The tests compare a few lines of one small diagram; points joined in "
     "the wrong order or colored wrongly are only seen by eye.",
     [PLOT + "projections.py"],
     [("plotted slices", PLOT + "projections.py")],
     tech="provenance analysis of the values handed to matplotlib",
     note=TRUST + "matplotlib itself, screen positions and the layout are not "
          "part of the analysis. Winds are known, boat speeds abstract "
          "(known for convex hulls).")
prop("C36", "Cruises arrive in the reported time",
     "The fastest way into a direction is that direction itself, or two "
     "directions at corners of the convex hull of the polar diagram (with "
     "influences considered, each with its own sail) whose proportions are "
     "between 0 and 1, add up to 1 and combine to the given direction. The "
     "legs of a cruise, each at its angle to the wind for its reported time "
     "in hours, cover the distance between start and end on the earth in "
     "nautical miles and combine to the course from start to end. The "
     "same wind given in different formats gives the same cruise.",
     ["inputs"],
     "all positions, winds and directions, for diagrams whose fastest way "
     "is straight or not, with several sails, with and without influences",
     "One diagram with a direction on each side is tested; courses, "
     "distances and travel times are not tested at all.",
     [CR + "basics.py"],
     [("directions on the hull", CR + "basics.py"),
      ("course, distance and time", CR + "basics.py")],
     tech="value analysis over symbolic terms, compared with geometry on "
          "the hull and on the earth by random interpretation",
     note=TRUST + "Diagrams are known, positions, directions and proportions "
          "abstract numbers within ranges; start and end differ.")
