# Generates properties.jsonl (kept so that the wording is reviewable in one place).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title)); 
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=', '.join(files))])))
A='pyrtlib/absorption_model.py';R='pyrtlib/rt_equation.py';T='pyrtlib/tb_spectrum.py';U='pyrtlib/utils.py';W='pyrtlib/weighting_functions.py'
L=['pyrtlib/_lineshape/h2oll.py','pyrtlib/_lineshape/o2ll.py','pyrtlib/_lineshape/o3ll.py']
UN='pyrtlib/uncertainty/absmod_uncertainty.py';CP='pyrtlib/climatology/atmospheric_profiles.py';CE='pyrtlib/climatology/extrapolation.py'
WY='pyrtlib/apiwebservices/wyomingupperair.py';IG='pyrtlib/apiwebservices/igra2.py';ER='pyrtlib/apiwebservices/erafive.py';WS='pyrtlib/apiwebservices/webservices.py';EP='pyrtlib/apiwebservices/eps_sandbox.py'

p('C01','Caller-supplied data is never modified',
 "Building and running a brightness-temperature simulation, evaluating an absorption model, computing a weighting function, extrapolating a profile, perturbing parameters, or calling any conversion utility never changes the contents of an array, dictionary, list or data frame that the caller passed in. In particular the height, pressure, temperature, humidity, ozone, cloud, frequency and angle arrays and the spectroscopic-parameter dictionary are the same after the call as before it.",
 ['inputs','histories'],"Every array/dict argument of every public computation, for every combination of profile orientation, model and option.",
 "Tests never compare the inputs after a call; aliasing shows up only when a caller reuses an array whose values happen to be changed by that path.",
 [T,R,A,U,W,UN,CE],"argument aliasing through views/attributes, in-place operators and item stores in the simulation, absorption, weighting-function, uncertainty and utility code")
p('C02','A simulation result depends only on its own inputs, not on history',
 "Running the same simulation object twice with the same settings returns the same values for every reported quantity, whatever cloud, satellite/ground, emissivity or model setting was used in between (model selection is package-wide by design: the same settings include the same selected models). A result table already handed back is not altered by a later run, and two simulation objects do not share their working arrays.",
 ['histories'],"Every sequence of setting changes and runs on one or several simulation objects.",
 "Tests run each object once; leftovers appear only after a particular sequence of settings (e.g. cloudy then clear).",
 [T,R],"per-level/per-angle result arrays kept on the object; each must be completely rewritten (or re-created) by the run that reports it")
p('C03','Each spectroscopic model reads exactly the line list that belongs to it',
 "For every supported water-vapour, oxygen and ozone model, choosing the model makes every line parameter used by the absorption computation come from that model's own table: each parameter the computation needs is defined for that model, comes from the column or variable that holds that quantity, and carries that quantity's scale. No parameter of a previously chosen model survives into the computation.",
 ['configurations','histories'],"Every supported model of every species, in every order of selection.",
 "Tests exercise a handful of frequencies and models with 0-5 decimal tolerances; a wrong column in a rarely used model or a parameter left over from another model passes.",
 L+[A,U],"conditional definition of line parameters at selection time and their conditional use in the absorption code")
p('C04','Each model uses its own published formulation; unknown models are refused',
 "For each supported model name the water-vapour, oxygen, nitrogen, ozone and liquid-water absorption use the coefficients and line-shape terms that belong to that model and no other model's, the self-selected and the explicitly listed model names agreeing. A model name that is not supported by the absorption routine being evaluated is reported as an error instead of being computed with some other model's formulation, and every model name offered as supported for clear-sky simulation is accepted by the cloudy one.",
 ['configurations'],"Every model name in the supported lists plus any other string, for each absorber.",
 "Tests pin a few models at a few channels; the dispatch is over ordered string comparisons and lists where a missing or extra member only affects one model.",
 [A],"model-name conditionals selecting constants (continuum, temperature exponents, line-mixing terms) in each absorber")
p('C05','The default parameter set reproduces the unperturbed model exactly',
 "Passing the unmodified default spectroscopic-parameter set of a model to the absorption computation gives the same absorption as passing none, for every model that supports perturbation. Each parameter is read from one physical quantity and written back to the same physical quantity with a consistent unit factor.",
 ['configurations','inputs'],"Every supported model and every parameter of the default set. Models up to R17 with the two empirical continuum adjustment factors left at their non-unit defaults are the documented exception.",
 "The tests compare only one perturbed scenario for one model; a swapped or mis-scaled parameter is invisible unless the default set is passed for that model.",
 [A,UN],"the read-out of line parameters into the parameter dictionary and their write-back in the absorption routine")
p('C06','Perturbing one parameter changes that parameter only, by its uncertainty',
 "Asking for a perturbed parameter set returns a set in which only the named parameter (and, when an index is given, only that line) differs from the base set: its value is the base value plus the stated uncertainty in 'max' mode and minus it in 'min' mode. The base set and any previously returned set are left untouched, and asking for a set again without a request returns unperturbed values.",
 ['inputs','histories'],"Every parameter name, index, mode, and sequence of requests; a scalar parameter takes no index, and an array parameter with a single common uncertainty is shifted as a whole.",
 "Tests check two or three parameters once; leakage needs a second request or another index.",
 [UN],"copying of the parameter dictionary and in-place modification of the copied value")
p('C07','Channels, angles and profiles are computed independently of each other',
 "The values reported for one frequency at one elevation angle depend only on that frequency, that angle and the profile; adding, removing or reordering other frequencies or angles does not change them. Results are ordered by angle first and, within each angle, in the order in which the frequencies were given.",
 ['inputs','configurations'],"Every list of frequencies and angles.",
 "Tests use fixed lists with a single angle almost everywhere.",
 [T,R,W],"the angle and frequency loops of the simulation and the indices used to store results")
p('C08','Every reported column holds the quantity its name says',
 "In the result table total, dry, wet, liquid, ice, mean-radiating-temperature, boundary and cosmic contributions, each column carries the quantity of that name: wet terms come only from water-vapour absorption, dry terms only from oxygen, nitrogen and ozone absorption, liquid and ice terms only from cloud absorption, each integrated over that same species' layers.",
 ['inputs','configurations'],"Every profile and option set, each result column.",
 "Tests assert only the total brightness temperature column in nearly all cases.",
 [T,R,A],"assignment of per-species absorption to accumulators and to the result columns")
p('C09','The orientation of the input profile does not matter',
 "A profile given top-down produces the same simulation as the same profile given bottom-up: every per-level input (height, pressure, temperature, humidity, ozone and, when supplied, cloud ice and liquid) is put in the same order before use. A height array that is neither strictly increasing nor strictly decreasing is refused with an error.",
 ['inputs'],"Every profile array in either order, with and without ozone and cloud data.",
 "All test profiles are bottom-up.",
 [T],"orientation test and reversal of the per-level arrays at construction")
p('C10','Radiative transfer recursion uses the right boundary for its viewing direction',
 "Looking up, the brightness temperature is the cosmic background attenuated by the whole atmosphere plus every layer's emission attenuated by the layers between it and the surface; looking down it is the emitted surface radiation plus the surface-reflected downwelling radiation, attenuated by the whole atmosphere, plus every layer's emission attenuated only by the layers above it. Every layer contributes exactly once and the emissivity multiplies the emission from the surface while its complement multiplies the reflection.",
 ['inputs','configurations'],"Every profile, opacity vector, emissivity and viewing direction.",
 "Tests pin totals for one emissivity; the separate boundary, atmosphere and downwelling terms are unchecked.",
 [R,T],"layer loop recurrences and the boundary terms of the radiative transfer solver")
p('C11','Every internal call passes quantities in the unit the callee expects',
 "Wherever one part of the package passes a physical quantity to another, or compares it with a limit, the value is expressed in the unit the receiving part documents (hPa, K, km, GHz, g/m3, relative humidity as a fraction, line widths in GHz/hPa and so on); a profile handed to the simulation in documented units is never rescaled twice or not at all.",
 ['inputs'],"Every internal call that passes a dimensional quantity.",
 "A wrong factor on one rarely used route (a humidity conversion, a cloud density, an extrapolated level) is invisible to tests with loose tolerances.",
 [T,R,A,W,U,CE],"unit conversions at call boundaries")
p('C12','Options accept exactly their documented values',
 "Each option that selects a method by name (perturbation mode, gas, atmosphere, quantity, latitude band, season, instrument, model, equation) produces its documented result for every documented value, each value selecting its own branch, and raises an explicit error for any other value; no undocumented value is silently treated as one of the documented ones.",
 ['inputs'],"Every string-valued selector argument and every value of it.",
 "Tests pass only some of the valid values and almost never an invalid one.",
 [A,U,R,W,CE,CP,UN],"string comparisons that select behaviour and their fall-through branches")
p('C13','Standard profiles and molecular masses are those of the named gas and climate',
 "For each of the catalogue's reference climates and gases, the profile returned is the one tabulated for that climate and that gas, and the molecular mass is that of the named molecule. An identifier outside the catalogue is refused with an error instead of returning another entry's data.",
 ['inputs'],"Every climate and gas identifier, and any integer outside the catalogue.",
 "Tests check one or two climates and gases.",
 [CP,U],"file/column selection by identifier and the mass table")
p('C14','Conversion functions and their inverses cancel',
 "Each pair of mutually inverse conversions (temperature scales, vapour pressure and mixing ratio, density and mixing ratio, height and pressure, physical temperature and modified Planck radiance and back) are inverse to each other for every physical input. Numeric constants used by both directions agree.",
 ['inputs'],"All physically meaningful real inputs of the conversion functions.",
 "Tests check each direction at single points, with 2-5 decimals.",
 [U,R],"closed-form conversion expressions in both directions")
p('C15','Reference-atmosphere extrapolation is consistent over bands and seasons',
 "The reference atmosphere is the same for a latitude and its opposite in the matching season, is defined for every height from 0 to 100 km in every band and season, and gives, for each quantity, the formula of the band and season asked for. At the breakpoints between height segments the pressure of adjacent segments joins continuously.",
 ['inputs'],"Every latitude, height, season and quantity.",
 "Tests evaluate a few heights at one latitude per band.",
 [CE],"the latitude/season/height decision tree with segment formulas")
p('C16','Extrapolating a profile keeps its measured levels and stays aligned',
 "Extending a measured profile upwards keeps the measured levels unchanged and in place, appends only levels above the highest measured one, and returns height, pressure, temperature and humidity arrays of the same length whose entries refer to the same level, with humidity in the unit of the measured values. Repeating the call gives the same result.",
 ['inputs','histories'],"Every input profile, height grid and call sequence.",
 "One test profile, one call.",
 [CE],"index search, slicing and concatenation of the profile arrays")
p('C17','Instrument channel tables are well formed',
 "Asking for an instrument's frequencies is insensitive to the case of its name and returns, for each listed instrument, sidebands placed symmetrically about their channel centre with no frequency repeated; an unlisted instrument is refused with an error. Ground-based instrument frequencies behave the same way.",
 ['inputs'],"Every instrument name.",
 "Tests pin only one instrument's table.",
 [U],"literal channel tables built from centre frequencies and offsets")
p('C18','A sounding request asks for the station and time given and reports failures',
 "The address of every sounding request carries the station, year, month, day and hour that were asked for, each in its own field, and the file or product variant selected by the option given. A response without data or with an error status is reported as an error, never returned as a profile.",
 ['inputs','fault_sequences'],"Every station/time/option combination and every server response.",
 "There is no network in the tests; request building and failure branches are never run.",
 [WY,IG,WS,EP],"request URL templates and response checks")
p('C19','Parsed sounding columns match the published file format, missing means missing',
 "When archive radiosonde data are parsed, each column is read from the character positions and decoded with the scale of the published record format and is given the name and unit of that field. Every missing-value marker becomes a missing value, never a number.",
 ['inputs'],"Every record of every archive file.",
 "No tests cover the parsers offline.",
 [IG,WY],"fixed-width column tables, converters and unit tables")
p('C20','Reanalysis extraction returns the requested point and time',
 "Reanalysis data read for a location come from the grid point nearest to that latitude and that longitude, every variable from that same point and level order, converted to the documented units; a download request asks for the given day and hour in the area around the given location.",
 ['inputs'],"Every location, time and grid.",
 "Tests cannot download data and do not read a file.",
 [ER],"nearest-point index and variable slicing; request dictionary")
p('C21','Opened resources are released on every path',
 "Every file or dataset that the package opens on disk is explicitly closed by the call that opened it, on every path on which that call returns, handles an error or raises an error of its own.",
 ['inputs'],"Every call that opens a file or dataset and every normal end of it.",
 "Leaks never fail a test.",
 [A,ER,CP,IG,WY,WS]+L,"open/close pairing")
p('C22','Weighting-function settings take effect and plotting has no side effect',
 "Every option of a weighting-function calculator (model, satellite or ground view, frequency list, angle, band grouping) affects the computed weighting functions or plot for which it is documented, and each band mean is taken over exactly that band's frequencies. Plotting does not alter the calculator or the arrays passed to it.",
 ['inputs','histories'],"Every settings combination and call order.",
 "Tests only check that plotting does not raise.",
 [W],"attributes read by the calculation and band grouping offsets")
p('C23','Cloud absorption is confined to declared cloud layers',
 "In a cloudy run liquid (ice) absorption is computed at every level whose liquid (ice) density is positive, from that level's own density, and is zero at every other level; a clear-sky run contains no cloud term at all. Integrated cloud amounts sum the layers between each declared base and top.",
 ['inputs','configurations'],"Every cloud layer declaration and density profile.",
 "A single cloudy test with one layer.",
 [T,R,A],"gating of cloud absorption by density and the layer integration loops")
p('C24','The non-resonant oxygen and nitrogen terms are counted once',
 "Total dry absorption is line absorption of oxygen plus non-resonant oxygen plus nitrogen plus ozone (when ozone data are given), each exactly once, for every supported oxygen model.",
 ['configurations','inputs'],"Every oxygen model.",
 "Tests pin totals at strong lines where the non-resonant term is small.",
 [A,R],"addition of the absorber's separate outputs into the dry column")
p('C25','Every documented argument influences what it is documented to influence',
 "Every documented argument of a public computation influences its result: no argument is accepted and then ignored or overwritten.",
 ['inputs'],"Every documented parameter of every public function.",
 "A dead argument never fails a test that uses its default.",
 [A,R,U,T,W,CE,UN],"dataflow from each parameter to the returned value")
p('C26','Total opacity and integrated amounts are sums of their parts',
 "Layer opacity used for brightness temperature is the sum of wet, dry, liquid and ice opacity, and each reported integrated opacity or path is the sum over every layer of that layer's contribution with no layer dropped or counted twice.",
 ['inputs'],"Every profile and cloud configuration.",
 "Tests assert final brightness temperature only.",
 [T,R],"layer integration loop and the summation of species opacities")
p('C27','No supported option combination fails with an internal naming error',
 "No combination of documented options makes the package refer to a name, attribute, method or variable that does not exist or has not been assigned, or dereference an optional result that was not supplied without checking it.",
 ['configurations','inputs'],"Every path of every public function.",
 "Paths not taken by a test are never resolved.",
 [T,A,R,U,W,CE,CP,UN,WY,IG,ER,WS],"name and attribute resolution along all paths")
p('C28','Conversion utilities compute their published formulas',
 "Every conversion utility (saturation vapour pressure over water and, below the given switch temperature, over ice; saturation mixing ratio; relative humidity from mixing ratio or density; mixing ratio, density and vapour pressure; virtual temperature; layer thickness; dew point to relative humidity; volume to mass mixing ratio and number density; specific humidity to mass density; modified Planck function; pressure and height) returns the value of its published formula, element by element, for every input and option.",
 ['inputs'],"Every physical input array and option of the conversion utilities.",
 "Tests evaluate each utility at one or two points to a few decimals, and the ice branches hardly at all.",
 [U],"closed-form expressions and masked ice branches in the conversion utilities")
p('C29','Vapour pressure, refractivity and ray geometry follow their equations',
 "Vapour pressure and density follow the Goff-Gratch saturation formula over water (over ice below 263.16 K when ice is asked for) and the ideal-gas law; dry and wet refractivity and the refractive index follow Thayer (1974) level by level; slant-path lengths follow the Bean and Dutton recursion, equal the height steps within one degree of the zenith or nadir, and are not produced when a refractive index is below one.",
 ['inputs'],"Every profile, elevation angle and observation height.",
 "Tests pin a few outputs at two angles; the near-zenith limits, ducting and turning branches are not reached.",
 [R],"vapor, refractivity and ray_tracing of the radiative transfer class")
for i,(t,s,why) in enumerate([
 ('Brightness temperatures stay within physical bounds','For every physical profile the brightness temperature lies between the cosmic background and the highest temperature present.','x'),
 ('Computed absorption agrees with the published reference programs','For every model, frequency and state the absorption equals that of the published reference implementation to its stated accuracy.','x'),
 ('More absorber never means less opacity','Increasing absorber amount at fixed temperature and pressure never decreases opacity.','x'),
 ('Slant paths are never shorter than vertical ones','For every elevation angle and refractivity profile the refracted path through a layer is at least the layer thickness.','x'),
 ('Spectroscopic covariance matrices are valid covariances','Each parameter covariance matrix is symmetric positive semi-definite and its diagonal equals the squared tabulated uncertainties.','x'),
 ('Concurrent simulations do not disturb each other','Two simulations running at the same time in different threads give the results they give alone.','x')]):
    p('N%02d'%(i+1),t,s,['schedules'] if i==5 else ['inputs'],'All physical inputs' if i<5 else 'All interleavings of two simulation threads','Tests sample a few values; the property is universal.',[R,A] if i!=4 else [UN],'numerical behaviour' if i<5 else 'class-level model state shared between runs')
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
