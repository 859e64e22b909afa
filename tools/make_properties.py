"""Writes /verif/properties.jsonl (kept so that statements and anchors are edited in one readable place)."""
import json, os
S = 'src/craterstats/'
RA, CLI, CPS, CP, CC, SC, MISC, PDF = (S + f for f in (
    'Randomnessanalysis.py', 'cli.py', 'Craterplotset.py', 'Craterplot.py', 'Cratercount.py',
    'Spatialcount.py', 'miscellaneous.py', 'Craterpdf.py'))
WT, IT, RT = S + 'gm/file/write_textfile.py', S + 'gm/misc/iterator_with_progress.py', S + 'gm/file/read_textfile.py'
RTS = S + 'gm/file/read_textstructure.py'
P = []

def prop(id, title, statement, over, q, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})

NOTEST = 'The suite has no test of the randomness analysis, the command line main routine or any failure path; '

prop('C01', 'Randomness results do not depend on worker scheduling',
     'For a given crater count, choice of measures and number of trials, the recorded Monte Carlo trial values and n-sigma scores are the same whatever the number of worker processes, how they are started, the order and speed in which trials finish, and the interpreter hash seed. '
     'Trial values are recorded in trial order, so running the analysis again from scratch reproduces the recorded results.',
     ['schedules', 'configurations'],
     'All interleavings of trial execution over any number of workers, any task durations, fork or fresh-interpreter workers, any hash seed, progress listener attached or not.',
     NOTEST + 'a test would see the one schedule the machine happened to produce.',
     [RA], [('seeding of trials and in-order collection of futures', RA)], ['the <name>_ra.txt results file'],
     [('trials', 'per measure and diameter bin, list of trial values', RA)])
prop('C02', 'Monte Carlo trials are fresh, uniformly distributed configurations',
     'Within one analysis no recorded trial is a copy of another trial of the same diameter bin, and the trial series of two bins are never copies of each other, for any number of workers and any schedule. '
     'The simulated crater positions are spread uniformly by surface area over the mapped region.',
     ['schedules', 'configurations'],
     'Any number of workers and trials, any assignment of trials to workers, fork or fresh-interpreter workers, any mapped region (high-latitude, multi-part, with holes).',
     NOTEST + 'independence of trials depends on which process inherits which generator state, which no sampled run controls.',
     [RA, SC], [('random state of worker processes; area-uniform draw in sine of latitude', RA)], ['the <name>_ra.txt results file', 'points used by each trial'])
prop('C03', 'Every simulated crater configuration is valid and correctly measured',
     'Whatever random numbers are drawn, each simulated configuration is completed and holds exactly the observed number of craters for its bin, all inside the mapped region and no two closer than half the bin diameter. '
     'The mean second-nearest-neighbour distance, the neighbours found and the spread of Voronoi-cell areas reported for any configuration, simulated or observed, equal the values computed directly from its points.',
     ['inputs', 'schedules'],
     'Every sequence of random draws (including repeated, clustered, boundary and unlucky ones), any region shape, bin population, diameter and search-grid resolution.',
     NOTEST + 'nearest-neighbour search errors only show for particular point patterns relative to the hidden search grid.',
     [RA], [('grid-accelerated rejection and neighbour search; spherical Voronoi areas', RA)], ['configurations and measure values of every trial'])
prop('C04', 'Recorded randomness results survive any interruption',
     'Once an analysis has recorded the results of a measure, a later analysis of the same crater count that is killed, interrupted, loses a worker or runs out of disk space at any point leaves a results file that still holds in full either the previously recorded or the newly completed results of that measure. '
     'Running the same command again then finishes with the same results as an uninterrupted run.',
     ['crash_points', 'fault_sequences', 'histories'],
     'Every point at which the process can be killed or interrupted, every write, open, close or rename that can fail, every worker death; any earlier recorded results.',
     NOTEST + 'crash points inside file replacement cannot be enumerated by sampled runs.',
     [RA, CLI, WT], [('results written after each measure so as to retain data if interrupted', CLI), ('replacement of the results file', RA)],
     ['the <name>_ra.txt results file after the fault and after the re-run'])
prop('C05', 'An incomplete analysis is never taken for a complete one',
     'If an analysis fails or is cancelled part-way, neither the results file nor the analysis object afterwards presents trials that were not computed as done, and asking again really computes what is missing. '
     'Every recorded measure holds exactly as many trial values per bin, for every bin with enough craters, as its stated number of trials.',
     ['fault_sequences', 'crash_points', 'histories'],
     'Any trial that raises, any worker that dies, any cancellation from the progress listener or keyboard at any point, then any further requests on the same object or in a new process.',
     NOTEST + 'needs a failure in the middle of a parallel computation followed by a retry.',
     [RA, CLI], [('skip rule for already available trials', RA)], ['the <name>_ra.txt results file', 'results held by the analysis object'])
prop('C06', 'Randomness results accumulate consistently across runs',
     'Across any sequence of analyses of one crater count, requesting no more trials than already recorded keeps the recorded trials, requesting more records at least that many, and recorded results of one measure are never lost or altered by analysing another. '
     'The recorded n-sigma scores always agree with the recorded trials and the actual crater positions, and only measures that were requested are analysed.',
     ['histories', 'configurations'],
     'Every sequence of analyses with varying measures, trial counts, output names, working directories and image formats.',
     NOTEST + 'the guarantee ranges over sequences of runs that share a results file.',
     [RA, CLI, CC], [('reuse of recorded results and re-computation of scores', RA)], ['the <name>_ra.txt results file'])
prop('C07', 'Progress reports are complete, ordered and truthful',
     'A long computation with a progress listener reports each of its steps exactly once, in increasing order, with the correct total, ending with the final step if and only if it completes, whatever order the underlying work finishes in. '
     'With a listener attached, log messages announce each diameter bin analysed, before its progress, with its measure and crater count, and the results are the same as without a listener.',
     ['schedules', 'fault_sequences'],
     'Every completion order and delay of the trials, every failure or cancellation point, slow listeners.',
     NOTEST + 'the order in which trials finish is not controlled by any test.',
     [RA, IT, CPS], [('progress iterator over submitted work', IT)], ['messages put on the progress queue'])
prop('C08', 'A command that reports success has written complete outputs',
     'If a command ends successfully, every output it promises (images, tables, converted or merged counts, saved command, randomness results) exists with exactly the content that an undisturbed run produces, whatever disk faults occurred on the way. '
     'If an output could not be written completely, the command ends with a failure status and does not announce that output as written.',
     ['fault_sequences', 'crash_points'],
     'Every write, open, close, rename or directory operation failing (full disk, I/O error, permission), short writes, for every kind of command.',
     NOTEST + 'write_textfile is tested once, against a mock that never fails.',
     [CLI, CPS, CC, SC, MISC, WT], [('error propagation from every writer to the exit status', CLI)], ['exit status, console messages, output files'])
prop('C09', 'A failed or killed command can simply be run again',
     'After a command is killed, interrupted or fails at any point, running the same command again without further faults succeeds and leaves the same outputs as if the first attempt had never happened. '
     'Outputs of earlier commands under other names stay as they were.',
     ['crash_points', 'fault_sequences', 'histories'],
     'Every kill, interrupt and fault point in every kind of command, including several failed attempts in a row.',
     NOTEST + 'left-over state of a torn run is only reachable by crashing at particular points.',
     [CLI, RA, CPS, SC, MISC], [('outputs are regenerated from sources; left-over files are never trusted as input', CLI)], ['output files after the re-run'])
prop('C10', 'Input data and installed files are never modified',
     'No command, whether it succeeds, fails, is interrupted or is killed at any point, changes, truncates, renames or removes a crater count, shapefile or command file given to it, or any file of the installation. '
     'It creates or changes files only under the output names the user asked for or, by default, in the working directory.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'Every command kind, every fault and kill point, including error-handling paths.',
     NOTEST + 'clean-up and error paths run only under faults.',
     [CLI, RA, SC, CC, MISC], [('sources are opened read-only; output names derive from -o or the source base name', CLI)], ['file system after each run'])
prop('C11', 'Unreadable input never yields a result',
     'If an input (crater count, shapefile part, function definitions, command file) cannot be opened or fails while being read, the command never produces a plot, table or converted data differing from what the complete input gives: it ends with a failure status, unless the part that could not be read is not needed for its outputs. '
     'Reads that merely return data in smaller pieces do not change any result.',
     ['fault_sequences', 'inputs'],
     'Every open and read call of every input file failing or returning short, for every command kind.',
     NOTEST + 'no test makes a read fail.',
     [CC, SC, CLI, MISC, RT], [('conversion of reader exceptions to an error exit', CC)], ['exit status and output files'])
prop('C12', 'The user-functions setting is durable and never disables built-ins',
     'Once setting the user functions file has been reported, every later command uses it, and if setting it fails, is interrupted or is killed at any point, later commands use either the previous or the new setting. '
     'Whatever state the setting and the file it names are in (missing, empty, unreadable, truncated or malformed), the built-in chronology systems remain available and commands using only them give their usual outputs.',
     ['crash_points', 'fault_sequences', 'histories'],
     'Every crash or fault point while storing the setting, every sequence of settings, every read fault on the setting or the file it names, later removal of that file.',
     NOTEST + 'no test covers the configuration of user functions.',
     [MISC, WT], [('fallback to the built-in list', MISC)], ['listing of available functions, plots made afterwards'])
prop('C13', 'Commands run in one session do not influence one another',
     'Any sequence of commands run in one process, including ones that fail or are interrupted, gives each command exactly the outputs it has when run alone in a fresh process. '
     'The demonstration sequence likewise gives each command its stand-alone outputs.',
     ['histories', 'fault_sequences'],
     'Every sequence of commands of any kind and settings, with failures or interruptions in between.',
     NOTEST + 'each test builds fresh objects and no two commands are ever run in sequence.',
     [CLI, CPS, S + 'constants.py'], [('defaults are copied for each command; plot style is reset for each drawing', CLI)], ['output files of each command'])
prop('C14', 'Analyses sharing one crater count do not disturb each other',
     'Densities, selected ranges, fitted ages and summary rows obtained from a crater count shared by several analyses are the same as from a freshly loaded count, for any interleaving of their operations and after any operation that was interrupted part-way. '
     'Objects and settings passed in by the caller are not altered.',
     ['schedules', 'histories', 'fault_sequences'],
     'Every interleaving of operations by clients using different binnings, ranges, presentations and fit types on one shared count, with interruptions at any internal call.',
     'The tests use each shared object from one caller in one fixed order.',
     [CC, CP, PDF, CPS], [('re-binning on demand when the requested binning differs', CC)], ['returned values of public analysis operations'],
     [('binned', 'cached binned form of the count', CC)])
prop('C15', 'Redrawing or re-tabulating a plot set gives the same result',
     'Drawing the same plot set or producing its table repeatedly, in any order, interleaved with drawing other plot sets and after failed or interrupted attempts, gives the same image and the same table every time. ',
     ['histories', 'fault_sequences'],
     'Every sequence of draw, save and tabulate operations over several plot sets, interrupted at any internal call.',
     'The tests draw at most once per object and never compare images.',
     [CPS, CP], [('figure rebuilt from settings on each drawing', CPS)], ['rendered image, table text'])
prop('C16', 'The same command gives the same outputs in every process environment',
     'A command whose result does not depend on chance produces the same set of files with the same content whatever the interpreter hash seed, the number of processors, the order in which output formats are listed or processed, and the clock. '
     'Each requested format is produced once, and asking for several formats gives each one the content it has when requested alone.',
     ['configurations', 'schedules'],
     'All hash seeds, processor counts (including one or unknown), clock values and jumps, orders and combinations of output formats, for all presentations.',
     NOTEST + 'the test run pins the hash seed to one value.',
     [CLI, RA, CPS, CP], [('loop over the requested formats', CLI)], ['set and content of output files'])
prop('C17', 'Each cell of an uncertainty grid follows from its own random count',
     'In an age-area uncertainty evaluation every cell reports the count drawn for its own expected number, and the error and age ratio shown for it are those of exactly that count, area and age, whatever counts are drawn. '
     'A cancelled evaluation yields no grid, and repeating it afterwards yields a complete one.',
     ['inputs', 'fault_sequences', 'schedules'],
     'Every outcome of the Poisson draws (zero, typical, extreme), grid shapes, axis ranges, cancellation at any step.',
     NOTEST + 'the evaluation is random and has no test.',
     [CPS, PDF], [('per-cell evaluation', CPS)], ['returned grid'])
prop('C18', 'A saved command reproduces its plot',
     'Running the command file saved next to a plot, from any working directory, in any process and any number of times, produces the same plot and table as the command that saved it. '
     'After a failed or interrupted attempt the saved command file of an earlier success is either still valid or replaced by that of the new command once it succeeds.',
     ['histories', 'configurations', 'fault_sequences'],
     'Every command with its quoting of titles, names and paths, every working directory, relative or absolute invocation, after any history of other commands.',
     NOTEST + 'no test writes or loads a command file.',
     [CLI], [('saved command text and its loader', CLI)], ['output files of the original and of the re-run command'])
prop('C19', 'Concurrent users of a results file never see partial results',
     'A plot, or another analysis, that reads recorded randomness results while an analysis is rewriting them sees either the previous or the new results in full, at every interleaving of the two processes. '
     'Two analyses recording results under the same name leave one of their complete results, never a mixture.',
     ['schedules', 'crash_points'],
     'Every interleaving of file operations of a writer and a reader, or of two writers, including a writer killed at any point.',
     NOTEST + 'needs two processes interleaved at particular file operations.',
     [RA, CC, WT], [('replacement of the results file', RA), ('lookup of recorded results next to the crater count', CC)], ['results seen by the reader, final results file'])
prop('C20', 'Every command ends, and nothing it started outlives it',
     'Whatever fails while a command or a randomness analysis runs (a disk operation, memory, a trial, a worker process that dies or cannot be started, a progress listener), and when the user interrupts it, it comes to an end. '
     'Once it has ended, normally or not, no worker process, thread or pending trial of it is left running, no temporary file is left on disk, no input or drawing is kept open, the working directory and the handling of interrupts are as before, '
     'and the same command can be run again in the same process.',
     ['fault_sequences', 'schedules', 'histories'],
     'Every command kind and analysis, every point of failure or interruption (short of a kill), every worker count, start method and schedule.',
     NOTEST + 'the tests never make anything fail part-way, start no worker process and inspect no process state.',
     [RA, CLI, WT, SC, CPS, IT], [('executor and manager used as context managers', RA), ('working directory restored in a finally clause', CLI), ('temporary file removed on failure', WT)],
     ['worker processes, threads, open files, files on disk and working directory after the command, outcome of the next command'])

prop('C21', 'Commands running at the same time do not disturb one another',
     'Commands that run at the same time as separate processes, in the same directory, with the same inputs and settings but under different output names, each end and report as when run alone and leave exactly the outputs they leave alone, '
     'at every interleaving of their file operations, and also when one of them fails, is interrupted or is killed. No file belongs to more than one of them; a user functions setting changed meanwhile is afterwards one of those given, in full.',
     ['schedules', 'fault_sequences', 'crash_points'],
     'Every pair or triple of commands and every interleaving of their file operations, including one of them ending at any point.',
     NOTEST + 'the tests run one command at a time.',
     [CLI, CPS, RA, WT, SC], [('temporary names that hold the process number', WT), ('outputs written under the output base name only', CLI), ('results file named after the output', RA)],
     ['outputs, messages and status of each command, names in the directory afterwards'])

PURE = 'Pure function of its input: no schedule, clock, randomness, fault or history in it.'
def pure(id, title, statement, q, files, mech, observe):
    prop(id, title, statement, ['inputs'], q, 'Tests sample a handful of inputs; the statement ranges over all.', files, mech, observe)

pure('P01', 'Binning conserves craters',
     'For any list of diameters and any binning, every crater falls in exactly one bin whose limits contain it, the total weight is conserved and the cumulative count at each bin is the number of craters at or above it.',
     'All diameter lists, fractions and binnings.', [CC], [('histogram over generated bin limits', CC)], ['binned tables'])
pure('P02', 'Plotted densities follow their definitions',
     'Cumulative, incremental, differential, relative and Hartmann densities and their errors equal the defined functions of count, bin and area for every crater count, with the binning-bias correction applied to the differential form only.',
     'All crater counts, binnings and ranges.', [CC, MISC], [('presentation formulas', CC)], ['plot data'])
pure('P03', 'Poisson age likelihoods are normalised and ordered',
     'For every count, area and diameter range the age likelihood integrates to one and the reported lower, median and upper ages are ordered and enclose the stated probability.',
     'All counts, areas, ranges, chronology systems.', [PDF], [('likelihood on a fixed age grid', PDF)], ['reported ages'])
pure('P04', 'Chronology and production functions are consistent with their inverses',
     'Age from density and density from age are inverse to each other over the valid range, densities increase with age and decrease with diameter, for every chronology system shipped.',
     'All chronology systems, ages, diameters.', [S + 'Chronologyfn.py', S + 'Productionfn.py'], [('polynomial evaluation and interpolation', S + 'Chronologyfn.py')], ['evaluated functions'])
pure('P05', 'Format conversion preserves the crater count',
     'Converting between shapefile, spatial count, diameter and binned formats preserves diameters, positions, fractions, boundary and area within the precision of the target format.',
     'All spatial counts, including holes and multi-part regions.', [SC, CC], [('writers and readers of each format', SC)], ['converted files'])
pure('P06', 'Areas and crater fractions respect spherical geometry',
     'Area, perimeter and fractional crater weights computed for any mapped region lie between their geometric bounds and agree for equivalent descriptions of the region.',
     'All regions and craters.', [SC, MISC], [('spherical polygon operations', SC)], ['area, perimeter and fractions'])
pure('P07', 'Abbreviations select a matching entry or are rejected',
     'An abbreviation given on the command line selects an entry that it matches, an exact match is never passed over silently, and one matching nothing is rejected.',
     'All abbreviations and lists.', [CLI], [('subsequence match', CLI)], ['selected settings'])
pure('P08', 'Displayed ages and numbers round the computed values correctly',
     'Every displayed age, error, diameter range and density is the computed value rounded to the stated significant figures with the right unit.',
     'All values.', [MISC, S + 'gm/string/sigfigs.py', S + 'gm/string/diameter_range.py'], [('formatting helpers', MISC)], ['labels, table cells'])
pure('P09', 'Automatic axis ranges contain all plotted data',
     'The automatically chosen axis ranges contain every plotted data point for every crater count and presentation.',
     'All plot sets.', [CPS], [('union of data ranges with padding', CPS)], ['axis ranges'])
pure('P10', 'Merging counts conserves craters and area',
     'A merged crater count holds every crater of its parts with its weight, and the sums of their areas and perimeters.',
     'All sets of crater counts.', [MISC], [('concatenation', MISC)], ['merged file'])
pure('P11', 'Sequence probabilities are complementary',
     'The probability that one surface is older than another and the reverse sum to one and are unaffected by the order in which surfaces are listed.',
     'All pairs of age likelihoods.', [PDF, CPS], [('integration of two likelihoods', PDF)], ['sequence table'])
pure('P12', 'Epoch boundaries partition the age axis',
     'The epochs of a system cover its age range without gaps or overlaps and each age falls in exactly one of them.',
     'All epoch systems.', [S + 'Epochs.py'], [('boundary ages from densities', S + 'Epochs.py')], ['epoch overlays'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
