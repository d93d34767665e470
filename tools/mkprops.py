import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

add("C01","A failing titration never affects the other titrations in the batch",
"When calibrating or solving a dataset, whatever goes wrong while one titration is being read or solved (missing, unreadable, cut-short, corrupted or nonsensical file, storage error at any read, failed allocation, invalid per-titration option such as an unknown solve mode, unit or file type) the call still completes, and every other titration gets exactly the result it would get if it were processed on its own from the same file, metadata, titrant molinity and options. In particular no data, option or result of one titration ever leaks into another, whatever the order of the rows, their index, or files that share a name in different folders.",
["fault_sequences","inputs","histories"],"every dataset, every row order, every placement of a read fault, corruption, allocation failure or bad setting in any pass over the files",
"The tests contain one missing file; faults at other points (open, nth read, decode, parse, solve), their combinations and their effect on the neighbouring rows are never exercised.",
["calkulate/dataset.py","calkulate/files.py","calkulate/read/titrations.py","calkulate/meta.py"],
[("per-row try/except around reading and solving","calkulate/dataset.py calibrate_row, solve_row"),("per-row keyword selection","calkulate/meta.py _get_kwargs_for; calkulate/dataset.py _backcompat")],
observe=["result columns of the dataset after calibrate / solve / calkulate"])

add("C02","A titration that fails shows blank results, never stale or partial ones",
"After a solve (or calibrate) in which a titration could not be read or solved, that row's results are all blank: no alkalinity, EMF0, Gran estimates, initial pH or temperature, zero points used, no alkalinity offset, and no individually calibrated molinity. Results from an earlier successful run, from another row, or from the part of the work done before the failure are never shown for it.",
["fault_sequences","histories"],"every history of successful and failing runs over the same dataset, every failure point within a row",
"Tests run each dataset once; none re-runs a dataset after a file became unreadable or inspects every result column of a failed row.",
["calkulate/dataset.py"],
[("blank result series built before the attempt and returned on failure","calkulate/dataset.py solve_row"),("NaN default molinity","calkulate/dataset.py calibrate_row"),("assignment of every result column after a pass","calkulate/dataset.py solve")],
state=[("result columns","alkalinity, alkalinity_std, alkalinity_npts, emf0, gran_*, pH_init, temperature_init, alkalinity_offset, titrant_molinity_here","dataset")])

add("C03","Batch molinity is the mean of that batch's usable reference materials only",
"After calibrating, each analysis batch's titrant molinity is the plain mean of the molinities of exactly those reference titrations of that batch that are marked good and could be calibrated in that run. A reference that fails to read or calibrate is left out (never counted as zero or as an old value), a batch left without any usable reference gets no molinity and its titrations are not solved, and nothing that happens in one batch changes another batch.",
["fault_sequences","inputs","histories"],"every assignment of rows to batches, every subset of references failing at any point, every earlier history of the dataset",
"Tests calibrate one or two batches with all references readable; which references survive a fault, and empty batches, are not sampled.",
["calkulate/dataset.py"],
[("group-by-batch mean over good, non-NaN references","calkulate/dataset.py get_group_calibration, get_batches, calibrate")],
state=[("titrant_molinity_here / titrant_molinity","individual and batch-mean molinity","dataset"),("reference_good","whether a reference takes part","dataset")])

add("C04","Once faults stop, one clean re-run gives what a never-faulted run gives",
"Whatever happened to a dataset before (read faults, failed or interrupted runs at any point, other calibrate/solve calls with other options, plots, or saving and reloading the table), running it again with its metadata unchanged and all files readable gives the same molinities, alkalinities and other result columns as the first run of a fresh copy of the metadata. Transient failures leave no lasting mark, such as a reference staying excluded, and running the same call twice changes nothing.",
["histories","fault_sequences","crash_points"],"every sequence of operations, faults and interrupts followed by one fault-free run",
"Tests never re-run a dataset after a failure, so state left behind in its columns or in the process is invisible to them.",
["calkulate/dataset.py","calkulate/files.py","calkulate/read/titrations.py"],
[("columns recomputed on every run","calkulate/dataset.py calibrate, solve, prepare"),("no caching of file contents","calkulate/read/titrations.py")],
state=[("columns added by earlier runs","reference_good, analysis_batch, total_*, opt_total_borate, analyte_mass, titrant_molinity*","dataset")])

add("C05","An interrupt stops a run at once and never leaves half-updated results",
"If the user interrupts (Ctrl-C) calibrate, solve or calkulate while titrations are being read or solved, the interrupt reaches the caller, and no further titration file is opened. The dataset then holds, separately for the calibration columns and for the solution columns, either entirely the previous values or entirely the new ones for all rows, never a mixture.",
["crash_points","histories"],"an interrupt at every point while a titration file is being read or a titration is being solved, in every pass and every state of the dataset",
"No test interrupts a run.",
["calkulate/dataset.py"],
[("handlers catch ordinary exceptions only","calkulate/dataset.py calibrate_row, solve_row"),("results assigned to the dataset only after the pass over all rows","calkulate/dataset.py calibrate, solve")])

add("C06","The user's metadata is never altered",
"Calibrating, solving, plotting or making single titrations from a dataset never changes the number, order or labels of its rows, nor any value the user supplied, even when reads fail or the run is interrupted at any point; only blank entries of the salt totals, borate option and titrant unit may be filled in, and only the titrant molinity is replaced, by calibration. Option dictionaries passed by the caller are left as they were.",
["fault_sequences","crash_points","histories"],"every operation sequence, fault and interrupt point, and every set of user columns, including extra ones Calkulate does not know",
"Tests look at result columns only, and only after successful runs.",
["calkulate/dataset.py","calkulate/classes.py","calkulate/plot/__init__.py"],
[("in-place updates limited to new columns and blanks","calkulate/dataset.py get_total_salts, prepare, calibrate, solve"),("row copied before overriding","calkulate/classes.py Titration.__init__")])

add("C07","Concurrent use gives the same results as running one after the other",
"Threads that at the same time read files, calibrate, solve, build titrations, simulate, model DIC loss or save plots, each on its own dataset or titration, get the same results as if they had run one after another, for every interleaving. This also holds when they share read-only inputs such as the same files, arrays, totals and constants dictionaries, metadata table or options.",
["schedules"],"every interleaving of two or more caller threads at statement granularity inside Calkulate and at every file operation",
"Tests are single-threaded.",
["calkulate/core.py","calkulate/files.py","calkulate/dataset.py","calkulate/classes.py","calkulate/interface.py","calkulate/simulate.py","calkulate/loss.py","calkulate/plot/__init__.py","calkulate/read/titrations.py"],
[("functions work on local values","all modules"),("figure-level drawing and saving","calkulate/plot/__init__.py")],
state=[("module-level settings","defaults and solver options shared by all callers","calkulate/settings.py, calkulate/default.py, calkulate/simulate.py component_multipliers")])

add("C08","Process-wide state is left as it was found",
"Every call leaves process-wide settings exactly as they were before it: the warning filters, NumPy error handling and random state, working directory, environment, plotting and pandas options, signal handlers, standard streams and Calkulate's own defaults. This holds whether the call succeeds, fails, hits a storage fault, is interrupted at any point, or runs interleaved with other threads.",
["schedules","fault_sequences","crash_points"],"every interleaving of calls in several threads, every interrupt point and fault",
"Tests never inspect process state and run single-threaded.",
["calkulate/core.py","calkulate/files.py","calkulate/settings.py","calkulate/default.py"],
[("scoped suppression of numeric warnings","calkulate/core.py gran_emf0s")])

add("C09","Processing only reads the files it needs and leaves none open",
"Calibrating, solving, making titrations and importing metadata never create, modify, rename or delete any file, never open a file that no processed row refers to, and never open the file of a row marked as not good. Every file opened is explicitly closed by the time the call returns or raises, whatever read fault occurred, and an interrupt at any point leaves no file open once it has been handled.",
["fault_sequences","crash_points","inputs"],"every dataset, fault and interrupt point",
"Tests do not watch the file system and have no I/O errors.",
["calkulate/read/titrations.py","calkulate/read/metadata.py","calkulate/dataset.py"],
[("context-managed file access","calkulate/read/titrations.py"),("file_good gate","calkulate/dataset.py calibrate_row, solve_row")])

add("C10","Exporting a titration never overwrites an existing file by default",
"Exporting titration data to a path that already exists fails and leaves the existing file's bytes untouched unless the caller explicitly asked to overwrite or append. When several exporters race for the same new path, exactly one succeeds, the others fail, and the file holds exactly the winner's data.",
["schedules","fault_sequences","histories"],"every interleaving of exporters at file-operation granularity, with and without storage faults",
"The only test overwrites on purpose, from one thread.",
["calkulate/read/titrations.py"],[("exclusive-creation mode by default","calkulate/read/titrations.py write_dat")])

add("C11","A successful export is complete and readable; a failed one is reported",
"If exporting titration data returns normally, the file holds the two header lines and every data point in order at the requested precision, and importing it returns those values. If storage fails at any point (disk full, write error, error at close) the export raises, and a failed, interrupted or crashed export leaves only a leading part of the intended text (after any text being appended to), never altered, reordered or foreign content.",
["fault_sequences","crash_points","inputs"],"every data set, precision and mode, every short write, write error and crash point",
"The only test writes one file to a healthy disk.",
["calkulate/read/titrations.py"],[("sequential formatted writes inside a context manager","calkulate/read/titrations.py write_dat")])

add("C12","Reading returns every row exactly, or raises; storage behaviour never shows",
"Importing a titration file (any supported format) or a metadata table (CSV, delimited, fixed-width, Excel, VINDTA dbs) returns every row of the file exactly and in order however the storage delivers the bytes: short reads, interrupted system calls, any file size. If the storage reports an error at any point the import raises and never returns a partial table, and from a file cut short at any byte it either raises or returns only leading rows of the file, apart from the row that was cut.",
["fault_sequences","inputs","crash_points"],"every file, every chunking of its bytes, every read at which an error occurs, every cut position",
"Tests read a few small healthy files in one piece.",
["calkulate/read/titrations.py","calkulate/read/metadata.py"],
[("whole-file parse","calkulate/read/titrations.py read_dat_genfromtxt, read_dat_pclims, read_tiamo_de, read_dat_orgalk_excel"),("metadata import","calkulate/read/metadata.py")])

add("C13","Numerical functions never modify the caller's data",
"Calibrating or solving a titration from arrays, and the conversion, speciation, Gran, equilibrium-constant, titration-simulation and DIC-loss functions, leave the caller's arrays and dictionaries exactly as they were, whether the call succeeds, raises, or is interrupted or runs out of memory at any point. The one documented exception is the function that adds the titrant's contribution to the totals in place.",
["crash_points","inputs","histories"],"every function, every titrant composition, every point at which an exception or interrupt can strike",
"Tests call each function once, let it succeed, and do not re-inspect its inputs.",
["calkulate/core.py","calkulate/convert.py","calkulate/interface.py","calkulate/simulate.py","calkulate/loss.py"],
[("titrant totals added for each residual evaluation","calkulate/core.py _lsqfun_calibrate_emf, _lsqfun_calibrate_pH, _lsqfun_calibrate_pH_gran, add_titrant_totals")],
state=[("totals","total salt contents shared between the caller and the solver","calkulate/core.py")])

add("C14","Results do not depend on the process, its history or its environment",
"The same files, metadata and options give the same results in every process: independent of hash randomisation, wall clock and time zone, locale, random-generator state, directory listing order, working directory (for absolute paths), what the process computed before, and whether the table was saved and reloaded in a new process in between.",
["configurations","histories","schedules"],"every hash seed, clock, locale, random state, listing order and preceding call history",
"Tests run with one fixed hash seed, in one process and environment.",
["calkulate/meta.py","calkulate/files.py","calkulate/core.py","calkulate/dataset.py","calkulate/read/metadata.py"],
[("keyword sets used for membership only","calkulate/meta.py _get_kwargs_for; calkulate/files.py keys_calibrate, keys_solve"),("no clocks or random numbers","all modules")])

add("C15","A Titration is a faithful, self-contained snapshot of its dataset row",
"Making a Titration from a solved dataset row gives the same alkalinity, EMF0, Gran estimates, initial pH and number of points as the dataset shows for that row (also when optional metadata is blank for that row), and does not change the dataset. Afterwards nothing changes what it reports or plots: not deleting or replacing its file, editing or re-solving the dataset, plotting, or making other titrations; it can be displayed, copied, saved and reloaded, and the copy reports the same. If its file cannot be read, making it raises.",
["histories","fault_sequences"],"every row, every later sequence of file changes, faults, dataset edits and plots",
"One test compares one row once, with no blanks and nothing happening afterwards.",
["calkulate/classes.py","calkulate/dataset.py","calkulate/files.py","calkulate/plot/titration.py"],
[("row copied, file read once at construction","calkulate/classes.py Titration.__init__"),("shared result extraction","calkulate/dataset.py add_solve_results")])

# ---- pure-function properties: listed, not claimed
def pure(id,title,statement,text,why,files,mech): add(id,title,statement,["inputs"],text,why,files,mech)
pure("C16","Self-calibration is exact","Solving a titration with the titrant molinity obtained by calibrating that same titration returns its certified alkalinity, in every solve mode, for HCl and H2SO4 titrants, and for every setting.","every titration and setting","Tests sample a handful of files.",["calkulate/core.py","calkulate/files.py"],[("calibrate_* wrap solve_* in a root search","calkulate/core.py")])
pure("C17","Solving a simulated titration recovers the alkalinity and EMF0 put in","Simulating a titration for a given alkalinity, DIC, salinity, temperature and EMF0 and then solving it returns that alkalinity and EMF0.","every composition and titration protocol","Tests sample one composition.",["calkulate/simulate.py","calkulate/core.py"],[("_titration and solve_emf share the same chemistry","calkulate/simulate.py, calkulate/core.py")])
pure("C18","Speciation agrees with PyCO2SYS on every pH scale","Every alkalinity component and the total alkalinity computed from pH equal PyCO2SYS's values for all totals, constants and pH scales.","every composition, pH and pH scale","A single random sample is tested.",["calkulate/simulate.py","calkulate/interface.py"],[("alkalinity_components","calkulate/simulate.py")])
pure("C19","Conversions invert each other and units are interchangeable","EMF, pH and [H+] conversions invert each other, and the same titrant or analyte given in ml (with density), g or kg yields the same masses and results.","every value, unit and density","A random sample of conversions; units are not cross-checked.",["calkulate/convert.py","calkulate/density.py"],[("amount_units, emf_to_h, h_to_emf","calkulate/convert.py")])
pure("C20","Dilution conserves mass","Through a titration, each total salt content times the mixture mass stays equal to the amount in the analyte plus the amount added with the titrant.","every composition and titrant","Not tested.",["calkulate/convert.py","calkulate/core.py"],[("dilute_totals, add_titrant_totals","calkulate/convert.py, calkulate/core.py")])
pure("C21","Only points inside the requested pH window decide the result","The alkalinity depends only on the data points whose pH lies in the requested window (inclusive), and the reported points used are exactly those.","every titration and window","Not tested.",["calkulate/core.py"],[("used masks","calkulate/core.py solve_emf, solve_pH, solve_pH_gran")])
pure("C22","Option precedence: row value, then keyword, then documented default","For every option a non-blank value in the dataset row wins over a keyword argument, which wins over the documented default; old-style keyword names behave like the new ones.","every option and combination","A few old-style names are tested.",["calkulate/meta.py","calkulate/dataset.py","calkulate/files.py"],[("_get_kwargs_for, _backcompat","calkulate/meta.py, calkulate/dataset.py")])
pure("C23","VINDTA dbs rows map to the right file names, times and reference values","Each dbs row yields the file name, analysis time, good flag and certified alkalinity that the VINDTA conventions imply for its run type.","every dbs table","Two tables are read.",["calkulate/read/metadata.py"],[("get_VINDTA_filenames, dbs_datetime","calkulate/read/metadata.py")])
pure("C24","Density equations match the published values and warn outside their range","Seawater, HCl-NaCl and H2SO4 densities reproduce the published equations over their validity ranges, and a warning is issued outside them.","every temperature, salinity and molinity","One check value each.",["calkulate/density.py"],[("MP81, DSC07, E-AIM fits","calkulate/density.py")])
pure("C25","The DIC-loss model conserves carbon apart from dilution and exchange","Modelled DIC equals diluted starting DIC minus the integrated loss, with zero loss for a zero coefficient, and reproduces the coefficient used in a simulation.","every titration and coefficient","Not tested (the test is disabled upstream).",["calkulate/loss.py","calkulate/simulate.py"],[("dic_loss_model_fitted, dic_loss_model_future","calkulate/loss.py")])
pure("C26","Plots show the data they are given","Each plot draws exactly the dataset or titration values it names, split into good/bad or used/unused as flagged.","every dataset and titration","Plots are not tested.",["calkulate/plot/__init__.py","calkulate/plot/titration.py"],[("scatter calls","calkulate/plot")])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s); assert p['statement'].count('. ')<=2,(p['id'])
print(len(P))
