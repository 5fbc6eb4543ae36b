"""The properties: text, anchors and the monitors which decide them (source of properties.jsonl and MANIFEST.json)."""

S = 'src/craterstats/'
PROPS = {}


def prop(id, module, title, statement, over, domain, why, files, mech, technique, note, rule, observe=(), assumptions=()):
    PROPS[id] = dict(module='vmon.' + module, title=title, statement=' '.join(statement.split()), over=over.split(), domain=' '.join(domain.split()),
                     why=' '.join(why.split()), files=[S + f for f in files.split()],
                     mech=[dict(name=n, where=S + w) for n, w in mech], technique=technique, note=' '.join(note.split()),
                     rule=' '.join(rule.split()), observe=list(observe), assumptions=list(assumptions))


MODEL = 'runtime monitoring: seeded workload through the public API, online comparison with an independent reference model'

prop('C01', 'data', 'Crater count files are read completely and exactly',
     """Reading a .diam, .scc or .stat file yields exactly the craters listed in it: the same diameters, each with its own fraction, none lost,
     invented, or altered, together with the stated area and perimeter (none if none is stated).
     This holds for any column order and any row order, with comments, blank lines, extra columns, units, CRLF line ends, a byte order mark or any numeric notation.
     For lists with a reference area per crater (buffered counts) the accumulated density is the sum of the reciprocals of the reference areas.""",
     'inputs', 'all crater lists, fractions, areas and textual layouts admitted by the documented formats',
     'The tests read a handful of sample files of one layout; the guarantee quantifies over every file a user may supply.',
     'Cratercount.py gm/file/read_textstructure.py gm/file/read_textfile.py',
     [('format readers', 'Cratercount.py'), ('text structure parser', 'gm/file/read_textstructure.py')],
     MODEL, 'Each generated file is read by the real reader and compared crater by crater with the list it was written from. Exploration: says nothing about layouts not generated.',
     'a case is a generated crater count file; distinct when size, columns, perimeter, layout features or bin counts differ', ['Cratercount(file): diam, fraction, area, perimeter', 'getplotdata'])

prop('C02', 'data', 'Stat file export tabulates the count and reads back as the same count',
     """A stat file exported from a crater count, for any binning, has one row for each non-empty bin, holding the lower boundary, count, density and error, cumulative count, density and error,
     mean diameter, differential density and error, and number of craters of that bin to the printed precision.
     Reading this file as a crater count reproduces the area and, to that precision, every presentation (densities, errors, numbers) of the original count.""",
     'inputs', 'all crater counts (list and spatial) spanning at least two non-empty bins and all binnings',
     'One exported file is compared with a stored text in the tests; round trip is not tested.',
     'Cratercount.py', [('export', 'Cratercount.py'), ('stat reader', 'Cratercount.py')],
     MODEL, 'Rows compared with an independent binning; re-read count compared with the original in all five presentations with tolerances from the printed digits.',
     'a case is a crater count exported and re-read; distinct when binning, number of bins, fractions or gaps differ', ['WriteStatFile', 'Cratercount(stat file)'])

prop('C03', 'data', 'Merging counts conserves craters, area and perimeter',
     """Merging crater count files into one count gives a file containing every crater of every part with its fraction (to six significant figures), the summed area, and the summed perimeter if all parts
     have one and none otherwise.
     Neither file order nor format changes the result, exactly one file of the requested (or default) name is created, and the sources stay untouched.""",
     'inputs', 'all sets of two to four .diam/.scc files, orders and output names',
     'Merging is not exercised by the tests at all.', 'Cratercount.py cli.py',
     [('merge', 'cli.py'), ('summation and diam export', 'Cratercount.py')], 'runtime monitoring: conservation monitor over the command line tool (in = out)',
     'The merged file is read back and its content balanced against the generated parts.',
     'a case is a merge of 2-4 generated files; distinct when number of parts, craters, precision or known perimeters differ', ['command line -m/--merge'])

prop('C04', 'data', 'Configuration text structures parse to what was written',
     """Parsing a text structure (tags, arrays, quoted strings, tables, nested or repeated structures; with comments, blank lines and any spacing) gives exactly the tags and values written, in order.
     Functions in a user's functions file become available beside, and never replace or disturb, the supplied ones.""",
     'inputs', 'all structures of the grammar up to one level of nested structure',
     'Tests parse a few fixed texts.', 'gm/file/read_textstructure.py gm/file/read_textfile.py Functionslist.py',
     [('parser', 'gm/file/read_textstructure.py'), ('user functions merge', 'Functionslist.py')],
     'runtime monitoring: grammar-driven workload, printed model compared with parsed structure',
     'Structures with tables nested deeper than one structure level are outside the generated grammar.',
     'a case is a generated text with its model; distinct when tags, types or number of blocks differ', ['gm.read_textstructure', 'Functionslist'])

prop('C06', 'data', 'Binning puts each crater into exactly one bin of the documented series',
     """For every binning, each crater is counted in exactly one bin, the bins being those of the documented series (pseudo-log, 20/decade, 10/decade, x2, root-2, 4th root-2, or none), so that counts, fractions and
     cumulative sums are conserved whatever the data, including craters lying on bin boundaries and gaps between populations.
     The bin of a crater does not depend on which other craters are counted with it.""",
     'inputs', 'all crater lists, fractions, binnings (and bin offsets)', 'Tests check stored numbers for two sample files.',
     'Cratercount.py', [('bin generation', 'Cratercount.py'), ('binning', 'Cratercount.py')], MODEL,
     'Craters within 1e-9 of a boundary may be on either side of it; everything else is decided exactly.',
     'a case is a crater list and a binning; distinct when binning, number of bins or boundary craters differ', ['getplotdata', 'generate_bins', 'apply_binning'])

prop('C07', 'data', 'Densities and errors of every presentation follow their definition',
     """For every crater count and binning the cumulative, differential, relative (R), Hartmann and incremental densities, their diameters and the reported crater numbers equal their published definitions computed from the craters,
     with relative error 1/sqrt(number of craters).
     Differential densities are corrected for the binning bias appropriate to the slope of the chosen production function (or to a slope of -3 if none), so that a population following the function plots on it.""",
     'inputs', 'all crater lists, fractions, areas, binnings, presentations and supplied production functions',
     'Tests compare stored numbers for one file.', 'Cratercount.py Productionfn.py', [('presentations', 'Cratercount.py'), ('bias correction', 'Cratercount.py')],
     MODEL, 'Reference presentation model written from the published formulae.', 'a case is a count evaluated in all presentations; distinct when binning, bins or fractions (or function) differ',
     ['getplotdata'])

prop('C08', 'data', 'Diameter ranges select exactly the intended bins',
     """A diameter range given as values, as bin numbers counted from either end, or as 0/inf decodes to the documented limits, extended outward to bin boundaries when snapping (and only then, except for bin numbers).
     The data within a range are exactly the bins whose centre lies inside it, with values unaffected by the selection, the reported numbers are those of the selected bins, and decoding an already aligned range changes nothing.
     A range wholly outside the data selects nothing, and an unintelligible range is refused with an error exit.""",
     'inputs', 'all counts, binnings, limits (value, bin number, 0, inf) with and without snapping',
     'Tests use a few ranges on one file.', 'Cratercount.py', [('range decoding', 'Cratercount.py'), ('selection', 'Cratercount.py')], MODEL,
     'Inverted mixed ranges are not judged beyond ordering.', 'a case is a count, binning and range; distinct when binning, snap, limits or bins differ',
     ['decode_range', 'getplotdata'])

prop('C09', 'data', 'A count answers independently of earlier requests',
     """However often and in whichever order presentations, binnings, ranges, exports and production functions are requested of a crater count, each answer equals that of a freshly read count of the same craters,
     whatever the order of rows in its file, and neither requests nor callers' changes to results alter later answers.""",
     'histories inputs', 'all histories of 3-12 requests over three binnings', 'Tests ask each object once or twice.', 'Cratercount.py',
     [('cached binning', 'Cratercount.py')], 'runtime monitoring: history checker against fresh-object model', 'Histories generated at random; fresh object is the model.',
     'a case is a history of requests; distinct when the sequence of operations differs', ['getplotdata', 'decode_range', 'WriteStatFile'])

prop('C10', 'models', 'Forms of each production function are mutually consistent',
     """For every supplied production and equilibrium function the cumulative form equals its published polynomial or table, scales exactly with 10^a0, and takes the value 10^a0 at 1 km; the differential form is minus its derivative,
     and the R and Hartmann forms are D^3 and the root-2 bin width times the differential form.
     Plotted curves lie on the function and span its validity range (or the part of it requested), and an isochron cut by an equilibrium function keeps exactly the part below 80 % of it.""",
     'inputs configurations', 'all supplied functions, diameters in their validity range, a0 values, presentations', 'Tests evaluate few functions at few points.',
     'Productionfn.py gm/maths/poly.py config/functions.txt', [('polynomial forms', 'Productionfn.py'), ('tabular forms', 'Productionfn.py'), ('isochron', 'Productionfn.py')],
     MODEL, 'Oracle: independent reading of the function definitions, polynomial evaluation, finite differences and quadrature. Where a published polynomial is not monotone inside its own range only its own behaviour is demanded.',
     'a case is a function with diameters and a0; distinct when function, number of points or a0 differ', ['evaluate', 'getplotdata', 'getisochron'])

prop('C11', 'models', 'Chronology functions convert age and density consistently',
     """For every supplied chronology function the density N(1) of an age equals its published formula and increases with age, the formation rate is its derivative, and the age of a density inverts it
     (to 0.2 %), never decreasing, within 0 and 5 Ga for any density.
     Epoch boundaries are ordered and named as defined and those defined by densities date to ages reproducing these densities.""",
     'inputs configurations', 'all supplied chronology functions and epoch systems; ages 0-5 Ga; any density', 'Tests check few ages.',
     'Chronologyfn.py Epochs.py config/functions.txt', [('N(1), rate and inversion', 'Chronologyfn.py'), ('epochs', 'Epochs.py')], MODEL,
     'The chronology defined by executable code in the definitions file (no longer supported) is excluded: see C12.', 'a case is a function with a series of ages; distinct when function, count or first age differ',
     ['N1', 'a0', 'phi', 't', 'getplotdata', 'Epochs'])

prop('C12', 'models', 'Names and abbreviations select the intended catalogue entry',
     """Any chronology system, equilibrium function, epoch system, presentation, colour, symbol, binning or plot type may be given by its name or by any abbreviation made of a subsequence of its letters in either case, which selects the shortest matching name
     and the functions belonging to it; an exact name always selects itself.
     A name matching nothing, or an ambiguous presentation, is refused with an error exit.""",
     'inputs configurations', 'all catalogue names and their abbreviations, junk strings', 'Tests try few names.', 'cli.py config/functions.txt constants.py',
     [('abbreviation decoding', 'cli.py')], MODEL, 'Known finding: one listed chronology system cannot be used at all.', 'a case is one selection; distinct when the text given or the entry selected differ',
     ['command line options'])

prop('C13', 'models', 'Fitting a production function recovers the isochron',
     """Points lying exactly on an isochron fit to exactly its a0, and through the plot interface to its age; for scattered points the fitted a0 is the weighted mean of the individual ones, scales exactly with density, does not depend on point order,
     and carries the counting error of the first point as ordered lower and upper bounds which translate to ages through the chronology function.""",
     'inputs configurations', 'all supplied functions and systems, sets of 1-25 points, ages .05-4.5 Ga', 'Tests check a few stored ages.',
     'Productionfn.py Craterplot.py', [('fit', 'Productionfn.py'), ('age calculation', 'Craterplot.py')], MODEL, '', 'a case is a set of points or a synthetic population; distinct when function, form, number or a0 differ',
     ['Productionfn.fit', 'Craterplot.calculate_age'])

prop('C14', 'models', 'Resurfacing correction is a consistent constant shift',
     """Correcting a cumulative fit for resurfacing adds one and the same density to all points, such that the isochron fitted to the corrected points predicts the corrected density at the largest diameter of the range;
     data already following an isochron stay unchanged.
     The result does not depend on the unit of area, leaves differential data alone, and the show-all option adds only the corrected points below the range.""",
     'inputs configurations', 'all supplied functions, resurfaced populations, ranges, areas of 1e-3 to 1e8 km2', 'Tests check one stored age.', 'Cratercount.py Productionfn.py',
     [('iterated correction', 'Cratercount.py')], MODEL, 'Consistency judged to 2 % at the last point.', 'a case is a population and a range; distinct when function, binning, selected bins or area differ', ['getplotdata(resurfacing=)'])

prop('C15', 'ages', 'Poisson ages equal the exact Bayesian posterior',
     """The age distribution from a Poisson evaluation of k craters on an area within a diameter range equals the exact posterior of a Poisson process under the chosen production and chronology functions, with ages limited to 5 Ga:
     median, 1-sigma bounds and every percentile (about 1 %), normalised, non-negative, ordered, giving an age at the limit when the count exceeds any age.
     k is the number of craters (or of craters in whole bins, for binned counts) in the range limited to the function's validity, one on the common limit of two ranges counting in just one; more craters give older and more area younger ages.""",
     'inputs configurations', 'all supplied systems, ranges where the function decreases, k from 0 to 3e4, areas over 20 decades', 'Tests compare stored ages of a few counts.',
     'Craterpdf.py Craterplot.py gm/maths/poisson.py', [('likelihood and percentiles', 'Craterpdf.py'), ('age calculation', 'Craterplot.py')], MODEL,
     'Closed form: Gamma(k+1) in the expectation, truncated at the expectation for 5 Ga. Tolerance about one step of the age table used.', 'a case is a posterior; distinct when system, k or area differ',
     ['Craterpdf', 'Craterplot.calculate_age'])

prop('C16', 'ages', 'Buffered Poisson ages use the buffered area exactly',
     """The buffered Poisson evaluation uses the expectation obtained by integrating the differential production function over the diameter range with the effective area A + D P/2 + pi D^2/4 of each diameter, giving the corresponding exact posterior;
     it tends to the standard one for small craters and is never older.
     Without a perimeter it is refused with an error exit.""",
     'inputs configurations', 'all supplied systems, ranges, areas, perimeters and k', 'Tests compare one stored age.', 'Craterpdf.py', [('buffered expectation', 'Craterpdf.py')], MODEL,
     'Expectation from adaptive quadrature.', 'a case is a buffered posterior; distinct when system, k, area or perimeter differ', ['Craterpdf(bcc=True)', 'Craterplot(type=b-poisson)'])

prop('C17', 'ages', 'Sequence probabilities are those of the two age posteriors',
     """The probability that one surface is older than another equals that of their independent exact posteriors (to .01), is complementary to the reverse, and is one half for identical surfaces.
     The sequence table requested with -st lists every unhidden Poisson or buffered evaluation, each entry giving the probability that the surface of its column is older than that of its row, with the median ages, their mean and the probability of a less likely set of ages had all formed at that mean; with fewer than two such surfaces there is no table.""",
     'inputs configurations', 'pairs and sets of 2-4 surfaces, all supplied systems', 'The tests do not generate a sequence table.', 'Craterpdf.py Craterplotset.py cli.py',
     [('sequence probability', 'Craterpdf.py'), ('sequence table', 'Craterplotset.py')], MODEL, 'Reference probability by quantile quadrature of the closed-form posteriors.',
     'a case is a pair or set of surfaces; distinct when system, counts or probability differ', ['calculate_sequence_probability', '-st'])

prop('C33', 'ages', 'Uncertainty grids show the Poisson statistics of each age and area',
     """Each cell of the uncertainty grid has the expectation of its age and area under the chosen system and minimum diameter, a number of craters drawn from that Poisson distribution, and the measured/actual age ratio and relative uncertainty of the exact posterior for that number.
     Ages increase monotonically across the displayed age axis from its younger to its older end, areas likewise.""",
     'inputs configurations', 'systems with polynomial functions, minimum diameters, age and area ranges, aspect ratios', 'Tests do not check grid values.', 'Craterplotset.py Craterpdf.py',
     [('grid', 'Craterplotset.py')], MODEL, 'Sampled counts judged with > 6 sigma limits, each cell with the closed-form posterior.', 'a case is a grid; distinct when system, shape or range differ', ['compute_age_area'])

prop('C05', 'output', 'Invalid input is refused with a message and leaves no output',
     """A crater count file without usable content (no, zero, negative or non-numeric area; missing columns; non-numeric, zero or negative diameters; fractions outside 0-1; truncated, binary, unreadable, of unknown type, or not existing)
     ends the program with an error message naming the file, whatever the operation; other damaged files either end so or are read as a well-formed count.
     Invalid options (unknown, malformed, contradictory, out of range) end the program with an error; in all these cases no output file is created and no input changed.""",
     'inputs', 'all damaged crater count files and invalid command lines', 'Tests use valid inputs only.', 'Cratercount.py cli.py gm/file/read_textstructure.py',
     [('readers and value checks', 'Cratercount.py'), ('option decoding', 'cli.py')], 'runtime monitoring: hostile inputs (grammar-aware damage, byte mutation) with refusal and no-output monitors',
     'Judges refusals of definitely invalid files; files damaged at random are judged only for well-formedness.', 'a case is an invalid file or option and an operation; distinct when kind, operation or content differ',
     ['main() exit', 'directory listing before and after'])

prop('C19', 'output', 'Displayed ages, densities and ranges read back as their values',
     """Every displayed number (age with errors, crater density with errors, area, diameter range, percentile), in LaTeX or MathML form, reads back as the value it stands for, rounded to the requested number of significant figures,
     errors to one fewer, with upper and lower error in the right place, the right unit and the right power of ten.""",
     'inputs', 'all positive values over 20 decades including those which carry when rounded, 1-5 significant figures', 'Tests format about twenty fixed numbers.',
     'miscellaneous.py gm/string/sigfigs.py gm/string/scientific_notation.py gm/string/diameter_range.py gm/string/percentile_sigfigs.py',
     [('number to text', 'gm/string/sigfigs.py'), ('age text', 'miscellaneous.py')], 'runtime monitoring: seeded workload, inverse (parse-back) oracle on every text', '',
     'a case is a formatted number; distinct when digits, unit, decade or leading digits differ', ['str_age', 'scientific_notation', 'sigfigs', 'diameter_range', 'percentile_sigfigs'])

prop('C18', 'output', 'The summary table reports every evaluation as computed',
     """The .csv table has one row per age evaluation of the command (hidden ones included), in command order, giving its name, area, binning, diameter range, method, number of craters, age and a0 and N(ref. diameter) with errors, source and formatted texts,
     each equal to the evaluation made afresh for that source and those settings, to the printed precision; the formatted texts agree with the numbers.
     Sort order ranks the ages from oldest; names containing commas keep the columns in place; without an evaluation there is no table.""",
     'inputs configurations', 'command lines of 1-5 overplots over 1-3 sources, all supplied systems with decreasing functions, all evaluation types', 'Tests compare tables of a few fixed commands.',
     'Craterplotset.py Craterplot.py cli.py', [('summary table', 'Craterplotset.py'), ('age calculation', 'Craterplot.py')], MODEL,
     'Oracle: evaluations by fresh objects, closed-form posteriors and independent bin counts; texts parsed back.', 'a case is a command line; distinct when system, presentation, overplot types, binnings or options differ', ['<out>.csv'])

prop('C20', 'output', 'The drawn figure shows exactly the computed data',
     """The figure of a command contains, for every overplot not hidden and nothing else, the points and error bars of its data in range, in its symbol and colour; for age evaluations the fitted curve over the range at the computed age, its annotation (value, errors, position, side),
     the age distribution for Poisson evaluations, and the whole isochron if requested; and the requested isochrons, equilibrium and epoch curves and regions at their true positions.
     Legend entries appear in command order with exactly the requested items and true values; labels, title and user ranges are as asked.""",
     'inputs configurations', 'command lines of 1-5 overplots, the four size-frequency presentations, sequence, chronology and rate plots, all options', 'Tests compare no figures.',
     'Craterplotset.py Craterplot.py Epochs.py cli.py', [('figure set', 'Craterplotset.py'), ('overplot', 'Craterplot.py')],
     'runtime monitoring: figures intercepted at savefig, artists compared with values computed afresh', 'Compares the matplotlib objects handed to savefig, not rendered pixels.',
     'a case is a command line; distinct when system, presentation, overplots or options differ', ['Figure.savefig: axes, lines, collections, texts, legend'])

prop('C21', 'output', 'Automatic axes contain all data with equal decades, in the size asked',
     """In the size-frequency presentations the automatic axes span whole decades, contain every drawn point with a margin, have equal scale in x and y (two y decades to one in x for differential), are the smallest such frame for the data of the command's overplots, padded evenly;
     a given x or y range is taken exactly, and Hartmann plots have their standard range.
     The plotting area has the requested size (cm per decade or largest fitting the given box) and the tick labels state the diameters at their positions.""",
     'inputs configurations', 'command lines of 1-5 overplots, all binnings, given and automatic ranges, sizes, tick styles', 'Tests compare no figures and fixed ranges of a few data sets.',
     'Craterplotset.py Craterplot.py cli.py miscellaneous.py', [('automatic range', 'Craterplotset.py'), ('plot layout', 'Craterplotset.py')],
     'runtime monitoring: figures intercepted at savefig, frame compared with the smallest frame for independently selected data', 'Margins of .3 decades (.8 at right, .6 in differential y) as built in; which side gets an odd decade of padding is not judged.',
     'a case is a command line; distinct when system, presentation, ranges or size differ', ['Figure.savefig: axes limits, positions, page size, ticks'])

prop('C22', 'process', 'A stored command or included settings reproduce the output',
     """Each command leaves a .cs script beside its output; running this script (-i), from any directory and whatever quoting its arguments needed, produces the same figures, tables and files at the same place.
     Comments and blank lines in a script have no effect, and options in an included file (-inc, also nested or in a script) act as if given in its place.""",
     'inputs configurations', 'command lines of all size-frequency, sequence, chronology and rate presentations with any options and file names, maps, uncertainty plots and randomness analyses (C31), options joined or abbreviated, written in the current directory', 'Tests do not replay scripts.',
     'cli.py', [('script and include files', 'cli.py'), ('script written', 'cli.py')], 'runtime monitoring: differential execution (command vs. replay), figures intercepted at savefig, files compared',
     'Scripts are run from the directory the command was given in or another; output in another directory than the sources is not replayed.', 'a case is a command and its replay; distinct when system, presentation, arguments or names differ',
     ['Figure.savefig', 'directory listing', '<out>.cs'])

prop('C23', 'process', 'A command means the same however it is written',
     """Abbreviating names and keys (letters in order, any case: the shortest name containing them), long option names, another order of options or of keys, explicit values of defaults, and settings either carried over from the previous overplot or given explicitly
     all give identical figures and tables; overplots act in the order given.
     An abbreviation matching nothing, or several presentations, is refused without output.""",
     'inputs configurations', 'command lines of all size-frequency, sequence, chronology and rate presentations and their rewritten forms; all abbreviations', 'Tests use one form of a few commands.',
     'cli.py constants.py', [('option decoding', 'cli.py'), ('carry-over', 'cli.py')], 'runtime monitoring: metamorphic differential execution, figures intercepted at savefig, files compared', '',
     'a case is a pair of equivalent commands or an abbreviation; distinct when the text differs', ['Figure.savefig', 'tables', 'exit'])

prop('C24', 'process', 'A command writes exactly the files asked for',
     """A command writes one file for each requested format under the given name, or in the given directory under the default name (sources, or chronology system with presentation), a table only if there is something to tabulate, the sequence table if requested, three figures per format for uncertainty plots, and its script;
     no other file is created, no input changed, and each file is of its format.
     Options which only list or print write nothing.""",
     'inputs configurations', 'all combinations of formats, output names and directories over random commands', 'Tests do not check the set of files.', 'cli.py Craterplotset.py',
     [('output files', 'cli.py'), ('default names', 'cli.py')], 'runtime monitoring: directory snapshot before and after each command compared with the model of files', '',
     'a case is a command; distinct when presentation, formats, kind of name or system differ', ['directory listing', 'file headers'])

prop('C25', 'process', 'Output does not depend on what was run before',
     """A command executed in a process after any sequence of other commands, including failed ones, gives the same figures and files as in a new process, and any two processes give the same.
     Drawing a plot set again gives the same figure, and repeating its table the same table.""",
     'histories inputs', 'sequences of 1-4 random commands in one process; the same commands in separate processes of different hash seeds', 'Tests run in one process but do not compare with separate runs.', 'cli.py Craterplotset.py Craterplot.py constants.py',
     [('plot set state', 'Craterplotset.py'), ('defaults', 'cli.py')], 'runtime monitoring: history checker, executions compared with those in a pristine forked process', '',
     'a case is a sequence of commands; distinct when the commands differ', ['Figure.savefig', 'directory listing'])

prop('C26', 'spatial', 'Areas, perimeters and diameters of spatial counts are those on the sphere',
     """Area and perimeter read from an .scc boundary or an area shapefile are those of the great circle polygon on the sphere of the stated radius, with holes and any number of parts, anywhere on the globe including across the 180 meridian and the poles,
     and a crater outline gives the spherical diameter of the circle of equal area, at its centre.
     The crater count and the spatial count of the same file agree.""",
     'inputs', 'random regions of .03 to 55 degrees with 1-6 parts and holes, any place and vertex order, .scc and shapefiles in geographic and six map projections', 'Tests read a few sample files near the equator.',
     'Spatialcount.py Cratercount.py', [('boundary of scc', 'Spatialcount.py'), ('shapefiles', 'Spatialcount.py')], 'runtime monitoring: readers observed on generated files, compared with independent spherical geometry',
     'Shapefile areas enclosing a pole are not used (their outline is not a polygon in longitude and latitude).', 'a case is a file; distinct when area, parts, radius or projection differ', ['Spatialcount attributes', 'Cratercount attributes'])

prop('C28', 'spatial', 'Craters across the boundary count with their penetrated fraction',
     """A crater outline wholly within the area of a shapefile pair counts as one, one wholly outside is left out, and one across the boundary counts with the fraction of its diameter that a straight boundary cutting off the same part of its area would lie inside.
     The transformation from area to diameter fraction is monotonic and correct for every value.""",
     'inputs', 'regions with holes and parts, craters of .01 to .4 of their size about the boundary, geographic and projected', 'Tests read one sample pair.', 'Spatialcount.py miscellaneous.py',
     [('fraction', 'Spatialcount.py'), ('transform', 'miscellaneous.py')], 'runtime monitoring: readers observed on generated files, compared with independent clipping in gnomonic projection',
     'Interpolation error of a table of penetrations .0105 apart is allowed.', 'a case is a file pair; distinct when region, radius, projection or number of craters differ', ['Spatialcount.fraction', 'Cratercount.fraction', 'af2lf'])

prop('C29', 'spatial', 'Random configurations are uniform, separate and complete',
     """Every Monte Carlo trial of a diameter bin places exactly as many craters as the bin holds, all within the area (outside its holes), no centre within another crater, and the requested number of trials is run for each bin with enough craters, all different.
     Positions are uniformly distributed over the area on the sphere, wherever it lies.""",
     'inputs schedules', 'regions of .1 to 55 degrees with holes and parts, including few-cornered ones, poles and 180 meridian; bins of 3-60 craters, sparse to crowded, 2-2000 trials in worker processes', 'Tests run one analysis and check only that it ends.',
     'Randomnessanalysis.py Spatialcount.py', [('random configurations', 'Randomnessanalysis.py'), ('enclosing area', 'Spatialcount.py')], 'runtime monitoring: event log of every configuration evaluated in any worker process, checked offline',
     'Uniformity is judged at 6.5 sigma for random strips and half planes with several thousand points.', 'a case is an analysis; distinct when region, craters, measure or trials differ', ['evaluate_randomness and run_trial in all processes'])

prop('C30', 'spatial', 'Randomness measures equal their brute-force definition',
     """The mean 2nd-closest neighbour distance and the standard deviation of adjacent area (Voronoi cells clipped to the area), for the craters of each bin and for every random configuration, equal those calculated from all pairs of great circle distances and all bisectors,
     independently of the search grid.
     The neighbours and cells kept for display are the true ones.""",
     'inputs', 'regions of .1 to 45 degrees with holes and parts, including poles and 180 meridian; bins of 3-30 craters', 'Tests compare one sample result.', 'Randomnessanalysis.py', [('measures', 'Randomnessanalysis.py')],
     'runtime monitoring: event log of every configuration evaluated in any worker process, recomputed by brute force', '', 'a case is an analysis; distinct when region, craters, measure or trials differ', ['evaluate_randomness in all processes'])

prop('C27', 'spatial', 'Conversion between spatial formats keeps the count',
     """Converting an .scc file to shapefiles gives outlines of all craters at their place and size and the area with its parts and holes on the sphere of the same radius; converting a shapefile pair to .scc gives all craters touching the area with diameter, position and fraction, the boundary and the stated area and perimeter; back and forth the count stays the same.
     Conversion to .stat gives the densities of the source. Exactly the files of the conversion are written under the documented names, and the source is unchanged.""",
     'inputs', 'random regions with holes and parts anywhere but at a pole, geographic and six map projections, all forms of output names', 'Tests convert one sample.', 'Spatialcount.py cli.py',
     [('writers', 'Spatialcount.py'), ('conversion', 'cli.py')], 'runtime monitoring: converted files read back by independent parsers and compared with the generated geometry',
     'Outlines of converted craters are accurate to 2e-3 of their radius (projection grid).', 'a case is a conversion; distinct when region, craters, radius or output option differ', ['written files', 'directory listing'])

prop('C36', 'spatial', 'Maps show every crater and outline in place',
     """A map of a spatial count draws each crater rim once, at its place and with its diameter, and each outline of the area and its holes, in an orthographic projection about the centre of the area with equal scales, and nothing of it outside the limits of the plot.
     Grid lines are parallels and meridians with the values of their labels, and some pass through the map.
     It is written under the documented name.""",
     'inputs', 'regions of .03 to 32 degrees radius anywhere, with parts, holes, poles and 180 meridian; .scc and shapefiles; png, svg, pdf', 'Tests draw no map.', 'Spatialcount.py cli.py',
     [('map', 'Spatialcount.py'), ('conversion', 'cli.py')], 'runtime monitoring: artists of the drawn figure mapped back to the sphere and compared with the generated geometry',
     'The grid is judged for areas within 70 degrees latitude. Rims are accurate to 2e-3 of their radius (projection grid).', 'a case is a map; distinct when region, craters or output option differ', ['figure artists', 'written files'])

prop('C31', 'randomness', 'Randomness results follow from the trials',
     """The result file of a randomness analysis holds every trial of every diameter bin with enough craters, and its deviations in standard deviations (and the percentiles shown) are those of the measure of the mapped craters among these trials; results already present are reused unless more trials are asked for, and other measures are added to them.
     Histograms, maps with neighbours and the deviation chart show these results for the selected bins, with clustering downwards for both measures.
     Size-frequency plots show the deviations stored for the source (.scc or shapefile) of every visible data overplot, in the current directory or else beside the source, unless switched off.""",
     'inputs histories', 'regions of .1 to 30 degrees with parts, holes, poles and 180 meridian; 1-4 bins of 3-25 craters; 2-50 trials; 1-2 runs; hand-made result files for overlays', 'Tests run one analysis and check only that it ends.',
     'Randomnessanalysis.py cli.py Craterplot.py Craterplotset.py Cratercount.py', [('statistics and charts', 'Randomnessanalysis.py'), ('reuse', 'Randomnessanalysis.py'), ('overlay', 'Craterplot.py')],
     'runtime monitoring: logged trials of all processes, independently parsed result files and figure artists, recomputed from the craters',
     'Standard deviations are of the population of trials. A result file is taken to belong to its source (stale files are outside).', 'a case is an analysis with reruns, or a plot; distinct when region, arguments or craters differ', ['evaluate_randomness and run_trial in all processes', '_ra.txt', 'figure artists'])

prop('C32', 'randomness', 'Randomness analysis is repeatable',
     """The same analysis gives the same trials and deviations whatever the number of processors, their timing, the prior state of the random generator, the order of measures, or their division into separate runs.
     A run which fails on the way leaves the results of completed measures, never partial ones, and continuing it gives the results of an uninterrupted one.""",
     'schedules faults histories', 'regions with parts and holes; 1-2 bins of 3-30 craters; 2-25 trials; 1-8 workers with random delays; a fault in any trial of either measure', 'Tests run one analysis once.',
     'Randomnessanalysis.py cli.py', [('seeding and workers', 'Randomnessanalysis.py'), ('results after each measure', 'cli.py')],
     'runtime monitoring: analyses under injected delays and faults, results compared with those of an undisturbed run',
     'Values are compared at the precision of the result file.', 'a case is a pair or triple of analyses; distinct when region, trials or disturbance differ', ['_ra.txt', 'evaluate_randomness and run_trial in all processes'])

prop('C34', 'helpers', 'A simulated crater log is a Poisson process of the chosen system',
     """The log printed by scripts/generate_simulated_crater_log.py lists numbered impacts in order of time, all within the chosen interval and diameter range.
     Impacts are an independent Poisson process (or evenly spaced, if chosen) whose expected number between any two times is that of the chronology function for the area and minimum diameter, and their diameters follow the production function.
     The inverse of a production function returns the diameter having the given frequency.""",
     'inputs configurations', 'systems with monotone production function; intervals, areas and minimum diameters giving 150-700 impacts', 'There is no test of the script.', '../../scripts/generate_simulated_crater_log.py Productionfn.py Chronologyfn.py',
     [('pf_inverse, main', '../../scripts/generate_simulated_crater_log.py')], 'runtime monitoring: offline statistical and ordering checkers over the printed event logs',
     'Distribution limits have p < 1e-9; rate within an interval is as coarse as the log.', 'a case is a log or an inverted function; distinct when system, interval or minimum diameter differ', ['main()', 'pf_inverse()'])

prop('C35', 'helpers', 'Displayed numbers, names and ticks are exact to stated precision',
     """Numbers, ages, diameter ranges and percentiles are written rounded to the stated significant figures, in the unit stated, without loss or false digits, whichever output form (text or MathML) is used.
     Axis ticks cover the data in at most the requested number of equal round steps; the parts of a file name reassemble to it; quoted values are split and written so that they read back unchanged.""",
     'inputs', 'magnitudes 1e-12 to 1e12, 1-6 figures, all units and forms; names with spaces, dots, quotes and separators', 'Tests check few numbers.', 'gm/string/sigfigs.py gm/string/scientific_notation.py gm/string/diameter_range.py gm/string/percentile_sigfigs.py gm/string/quoted_split.py gm/string/quote_csv.py gm/plotting/ticks.py gm/file/filename.py miscellaneous.py',
     [('number text', 'gm/string/sigfigs.py'), ('age text', 'miscellaneous.py')], 'runtime monitoring: generated values with round-trip oracles on the returned text',
     'Observes the helpers directly; their use in figures and tables is judged in C19-C21.', 'a case is a value with format; distinct when value or format differ', ['returned text'])

prop('C37', 'render', 'Image files show the figure in the size and appearance asked',
     """Every image file written has the size of the laid-out page at 500 dpi (or, if tight, the frame of its content with nothing cut off) in all formats alike, and the background asked for: white, black if inverted, transparent outside the plot area if so requested.
     Points, error bars and fitted curves within the frame can be seen in their colour at their positions.
     Text is in the chosen font, with sizes proportional to the point size.""",
     'inputs configurations', 'commands of all size-frequency, sequence, chronology and rate presentations with 1-2 overplots in filled symbols; png, tif, pdf, svg', 'Tests look at no image.', 'Craterplotset.py Craterplot.py cli.py constants.py',
     [('figure set', 'Craterplotset.py'), ('saving', 'cli.py')], 'runtime monitoring: written image files decoded, pixels compared with the figure model',
     'Visibility is judged for the overplot lying on top.', 'a case is a command; distinct when presentation, options or overplots differ', ['image files', 'Figure.savefig'])
