"""What is claimed, by which method; and what is not, and why."""
VG = ('abstract interpretation of the Python sources into value graphs (gated SSA with loops), compared by algebraic value numbering with a reference rule; '
      'nothing of the package is imported or run')
CHECKS = {}
NA = {}


def claim(pid, technique, note):
    CHECKS[pid] = dict(technique=technique, note=note)


claim('C01', VG + '; aliasing through views and attributes as in numpy', 'All array contents symbolic and of unknown sign, any number of levels; every conversion utility found in the module; four simulation configurations (24 in the thorough tier) with nothing left uninterpreted.')
claim('C02', VG + '; histories of setting changes on abstract objects', 'All contents symbolic; histories are an enumerated list of setting changes; three levels, in the thorough tier any number of levels.')
claim('C05', VG, 'Number of lines symbolic (true number for oxygen where loop shapes differ); all models; each parameter replaced by fresh symbols one at a time.')
claim('C07', VG + '; each cell against the run of that cell alone, plus a read-set rule', 'Frequency and angle counts up to three, levels symbolic or four, all contents symbolic.')
claim('C08', VG + '; provenance (dependence) sets of every output', 'Levels symbolic, contents symbolic; frequency and angle counts 1-2.')
claim('C09', VG + '; orderings of the height array enumerated', 'Levels symbolic for the orientation rule; the 27 step orderings of four heights for the refusal rule.')
claim('C10', VG, 'Levels symbolic; the missing reflected downwelling is a recorded finding.')
claim('C23', VG, 'Levels symbolic; one to three clouds.')
claim('C24', VG + ' with the absorbers uninterpreted', 'Levels symbolic, all nitrogen/ozone selections.')
claim('C26', VG, 'Levels symbolic; one to three clouds; frequency and angle counts 1-2.')

claim('C03', VG + '; provenance of every line parameter', 'Number of lines symbolic; all models; two loading orders per model; ten model changes through the simulation object.')
claim('C04', VG + '; enumeration of the model names', 'Number of lines symbolic (or the true number where loop shapes differ); every thermodynamic state and frequency symbolic; all model names plus eight names outside the lists.')
claim('C06', VG + '; request histories', 'Every parameter of every model, three modes, elements of a three-line table; scalars distinct numbers, arrays symbolic. The shared *_NL arrays are a recorded finding.')
claim('C14', VG, 'All inputs symbolic and positive.')
claim('C28', VG, 'All inputs symbolic and positive; arrays of any length (four levels for the layer thickness); every option value.')
claim('C29', VG, 'Profiles symbolic, any number of levels for vapor and refractivity; three levels (two to four in the thorough tier) for ray tracing, angle symbolic and at the limits.')
claim('C13', VG + ' with the data files as uninterpreted tables', 'All 6 climates, 44 gases, and a sample of about 130 identifiers outside the catalogue. The mass of CCL3F is a recorded finding.')
claim('C11', VG + '; recorded arguments of internal calls; unit differences recognised by rescaling', 'Simulation, clear sky, cloud, radiance and utility interfaces with three symbolic levels; the published formulas of the receivers. Interfaces that pass through containers or files are those of C19, C20 and C16.')
claim('C12', VG + '; each selector for every documented value and for values near them', 'The undocumented values are an enumerated list (about 15 variations per documented value). Numeric values (formulas, coefficients) are those of C04, C13, C15 and C17. dewpoint2rh(method) is undocumented and left out.')
claim('C15', VG + '; height ranges cut at every constant the code or the rule compares the height with', 'Every region between two neighbouring breakpoints and a point at each, up to 100 km; every band and season; formulas compared as numbers at one height per region and symbolically elsewhere.')
claim('C16', VG + '; height grids enumerated as constants, measured values symbolic', 'Measured-levels rule for symbolic heights; alignment for 20 height grids of three levels at 15 latitude/month combinations (a third of them in the quick tier).')
claim('C17', VG + ' with constant tables', 'All instruments, three spellings each, and names outside the lists.')
claim('C18', VG + '; recorded requests split into address fields; constant propagation of archives of known layout through the selection of soundings', 'Symbolic station and time, every option combination and request history of two calls; ten error statuses; three archive layouts. Real network, HTML and ZIP decoding are outside.')
claim('C19', 'abstract interpretation of the table descriptions and converters; constant propagation on the markers and sample values of the published format; ' + VG, 'IGRA 2 raw and derived records (every field) and the Wyoming listing; converters on markers and values covering the range of each field.')
claim('C20', VG + '; extraction of the grid indices that reach each variable; recorded download request', 'Symbolic data set, location and time; both readers; the request with default and with symbolic resolution and extent.')
claim('C21', 'typestate analysis of opened files and data sets over the syntax trees, with summaries of helpers and exception edges inside try', 'Every explicit path of every function and module body of the package; errors raised by a library outside any try are left to the object\'s own finaliser.')
claim('C22', VG + '; recorded drawing calls', 'Levels symbolic (three where curves are compared cell by cell); every setting combination of the calculator; plotting calls recorded as effects.')
claim('C25', 'dependence analysis on value graphs: occurrence of each argument\'s symbol in what the call returns, sets or sends', 'Every public computation of the package with symbolic numeric arguments; options by comparing the graphs of their documented values; simulations with three levels.')
claim('C27', 'name, attribute, import and call resolution over the syntax trees of the whole package; ' + VG + '; every event of reading something that does not exist', 'All functions for the resolution rules; all combinations of the simulation options, all models and the option values of C01, C12 and C22 for the path rule; optional libraries assumed present.')

for pid, why in dict(
        N01='quantifies over computed temperatures; a bound needs numerical reasoning over exponentials of runtime profiles, which no static argument in reach gives',
        N02='needs the numerical output of external reference programs that are not in the repository; the structural part (which coefficients and terms each model uses) is C03/C04',
        N03='monotonicity in absorber amount quantifies over sums of line shapes with line mixing of either sign at runtime states; no static argument in reach bounds it',
        N04='quantifies over refractivity profiles and transcendental geometry at runtime; no static argument in reach',
        N05='a statement about the numbers in a shipped data file, not about source code',
        N06='the package keeps model selection and viewing geometry in class attributes by design and documents no thread safety; nothing to decide').items():
    NA[pid] = why
