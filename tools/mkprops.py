"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(kw)
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'External programs get all input, keep all output, and failures are errors',
  'Whenever the package runs NJOY or the matrix converter, the program is started in the run folder and can read exactly the given input followed by end of input, and the call returns once the program has ended, whatever the amount and timing of its output and wherever it stops reading, closes its streams or dies. A program that ends with a non-zero status or by a signal always surfaces as an error carrying that status and everything it printed, and none of its results are taken over. A program that ends with status zero never makes the call fail.',
  ['schedules', 'fault_sequences', 'inputs'],
  'for every input deck, every output volume and chunking, every interleaving of parent and child, every exit status or signal and every point at which the child stops reading or dies',
  'the tests never start a program; whether the two sides of the pipes can block or lose data depends on the interleaving and on pipe capacity, which no single run of a real program decides',
  ['ASAPy/EndfToCov.py', 'ASAPy/njoy.py', 'ASAPy/data/njoy.py'],
  [('run_program: feeds stdin, drains stdout, checks the status', 'ASAPy/EndfToCov.py'),
   ('run: same, inside a temporary folder, then moves result tapes', 'ASAPy/njoy.py, ASAPy/data/njoy.py')])

p('C02', 'Extracted matrices stem from this run and the right tape, MT and temperature',
  'When a covariance extraction succeeds, every result file it leaves (NJOY listing, covariance tapes, plots, one matrix file per tape and reaction) holds what the programs produced in this very run for that tape, material, reaction and temperature; the input given to NJOY is a valid deck that asks for exactly the material, reactions, group structure, weighting and temperatures requested. An extraction whose programs all do their work succeeds; if a program of the chain fails, or does not produce a covariance tape or a matrix, the extraction fails instead of passing on anything else. This holds also in a folder where earlier runs, complete or broken, left files of the same names.',
  ['histories', 'fault_sequences', 'configurations', 'inputs'],
  'for every history of runs sharing an output folder, every program failure or missing output at every step, and every selection of reactions, temperatures, groups and of nu-bar and chi processing',
  'no test runs the chain; taking over a stale file needs a particular earlier run and a particular later failure',
  ['ASAPy/EndfToCov.py', 'ASAPy/njoy.py'],
  [('chain driver: copies tapes, runs NJOY then the converter per tape and MT', 'ASAPy/EndfToCov.py _run_cover_chain, run_cover_chain'),
   ('NJOY deck and tape numbering', 'ASAPy/njoy.py make_njoy_run')])

p('C03', 'The covariance store holds only complete and consistent entries',
  'After any sequence of extractions into a store, some of which may fail or be killed, each nuclide and reaction in it has both its correlation table and its standard deviation table, both from the same extraction, and they reproduce the group bounds (descending), cross sections, relative and absolute standard deviations and correlations (unit diagonal, symmetric, within -1 and 1, no missing values) of the matrix that was extracted, with zero cross sections stored as zero mean and negligible deviation. A later extraction of the same reaction replaces both tables and never touches any other entry. A reaction for which the converter reports an error is skipped and leaves its entry as it was; an extraction that fails or is killed leaves every entry either as it was or complete from that extraction.',
  ['histories', 'fault_sequences', 'inputs'],
  'for every sequence of extractions (any nuclides, reactions, group structures, overlaps) and every failure of any extraction at any step of it, including invalid matrices and store write errors',
  'consistency of the pair depends on where in a sequence of runs a failure strikes; the tests build data frames only',
  ['ASAPy/EndfToCov.py', 'ASAPy/AsapyCovStorage.py', 'ASAPy/CovManipulation.py'],
  [('matrix file parser and store writer', 'ASAPy/EndfToCov.py read_boxer_out_matrix, process_cov_to_h5'),
   ('store layout and validation', 'ASAPy/AsapyCovStorage.py')])

p('C04', 'Extraction under disk faults or kills: no false success, and reruns converge',
  'If any file operation of a covariance extraction fails, or the process is killed between any two of its operations, the extraction does not report success unless its results equal those of an undisturbed run, and the evaluation file it reads is never changed. Running the same extraction again in the same folder afterwards succeeds and leaves the same store entries and matrix files as in a fresh folder. Entries of other nuclides and reactions in the store survive unchanged.',
  ['crash_points', 'fault_sequences', 'histories'],
  'for every operation of the run as the point of failure (full disk, I/O error, out of descriptors, torn or short write, kill), in fresh and used folders',
  'there is one crash point per file operation and the damage shows only in the following run',
  ['ASAPy/EndfToCov.py', 'ASAPy/AsapyCovStorage.py', 'ASAPy/njoy.py', 'ASAPy/endf.py'],
  [('extraction command line', 'ASAPy/EndfToCov.py'), ('store writer', 'ASAPy/AsapyCovStorage.py')])

p('C05', 'Parallel sampling writes every sample once, independent of ranks and timing',
  'For any number of parallel ranks and any relative timing of them, a sampling run produces exactly the same set of files with exactly the same bytes as the run on a single rank with the same random numbers: samples numbered from 0, as many as were requested or, if negative samples were discarded, as many as every sampled reaction still has. Each file is written by one rank only. Files that were in the folder before do not influence what is written.',
  ['schedules', 'configurations', 'inputs'],
  'for every number of ranks (fewer, equal or more than samples), every interleaving of their operations, every selection of reactions, distribution and sample count, and any earlier content of the folder',
  'no test runs the sampler, and a test run exercises one interleaving of one rank count',
  ['ASAPy/XsecSampler.py', 'ASAPy/AceIO.py'],
  [('work split and writing', 'ASAPy/XsecSampler.py write_sampled_data'), ('command line, broadcast of samples', 'ASAPy/XsecSampler.py __main__')])

p('C06', 'All ranks use the same draws, and every parallel run ends',
  "All tables of one sampling run are made from one set of draws, no matter how each rank's own random stream stands, and the sample tables (CSV) list exactly the factors applied, next to the group bounds, means and deviations of the store. For every combination of options, store and table content every rank takes part in the same sequence of collective operations, so the run never deadlocks; a run with nothing to sample ends successfully without output. If any rank fails, the run as a whole is reported as failed.",
  ['schedules', 'configurations', 'fault_sequences'],
  'for every interleaving, rank count, option combination (plots, plot only, oversampling, distribution), set of available reactions, and a failure of any one rank at any of its operations',
  'disagreement between ranks and deadlocks exist only in multi-process schedules the tests do not create',
  ['ASAPy/XsecSampler.py'],
  [('rank 0 samples, broadcast, per-rank writing', 'ASAPy/XsecSampler.py __main__, write_sampled_data')])

p('C07', 'A sampled table is the base table times the group factors, with consistent sums',
  'In every table a sampling run writes, each value of a sampled reaction (cross section, nu-bar, prompt fission spectrum) is the base value times the factor of the energy group it lies in (factor one outside the group structure), zero values stay zero, and fission spectra stay normalised with matching cumulative distributions. Every summed cross section that contains an adjusted one, directly or through sums absent from the file, changes by exactly the sum of their changes, whatever the order in which reactions are sampled. Every other value of the table, its header and its length are unchanged.',
  ['inputs', 'configurations', 'schedules', 'histories'],
  'for every base table layout, group structure, choice and order of reactions, factors, ranks and interleavings',
  'the result depends on combinations of reactions, thresholds, absent sums, table position and order of edits that tests with one table cannot cover',
  ['ASAPy/XsecSampler.py', 'ASAPy/AceIO.py', 'ASAPy/data/neutron.py', 'ASAPy/data/ace.py', 'ASAPy/data/reaction.py'],
  [('group to point mapping', 'ASAPy/XsecSampler.py map_groups_to_continuous'), ('sum rules', 'ASAPy/AceIO.py AceEditor.apply_sum_rules'),
   ('array replacement in the file text', 'ASAPy/AceIO.py WriteAce')])

p('C08', 'Draws follow stored means, deviations and correlations for any random stream',
  'For any random stream, each sampled group takes exactly one value from each of n equally probable strata (n = samples made) of the requested distribution with the stored mean and standard deviation, and the samples carry the stored correlations between groups (none for the uncorrelated distributions) within sampling accuracy. Groups with zero mean, zero deviation or no correlation data keep a factor of exactly one. Lognormal factors are always positive; samples with a negative value are dropped as a whole, the survivors keep their order and are renumbered from zero, and no more than the requested number is kept.',
  ['schedules', 'inputs', 'configurations'],
  'for every random stream, distribution, number of samples and oversamples, number of groups, mean, deviation and correlation matrix including singular and not positive definite ones',
  'tests look at one stream for two hand-made matrices and compare loosely; the stratification and exclusion rules are per-stream facts',
  ['ASAPy/CovManipulation.py', 'ASAPy/XsecSampler.py'],
  [('correlated Latin hypercube sampling', 'ASAPy/CovManipulation.py sample_with_corr, gmw_cholesky'), ('relative values, removal of negatives', 'ASAPy/XsecSampler.py XsecSampler, sample_xsec')])

p('C09', 'I/O failures during sampling are never silent and never damage inputs',
  'If any file operation of any rank fails during a sampling run, the run is either reported as failed or all its files are exactly those of an undisturbed run; partial reads and writes, which are legal, change nothing. The base table and the covariance store are never modified. After a failure every file found in the folder is byte for byte the undisturbed result, except those a failed or aborted rank had open for writing at that moment.',
  ['fault_sequences', 'schedules', 'crash_points'],
  'for every operation of every rank as the point of failure, for full disk, quota, I/O error, descriptor exhaustion, permission loss, short read and short write, under every interleaving',
  'there is one scenario per operation, rank and error; none is reachable from a unit test',
  ['ASAPy/XsecSampler.py', 'ASAPy/AceIO.py', 'ASAPy/data/ace.py'],
  [('table reading and writing', 'ASAPy/AceIO.py'), ('CSV writing', 'ASAPy/XsecSampler.py write_sampled_data')])

p('C10', 'A killed sampling run can simply be repeated',
  'If ranks of a sampling run are killed at any point, with any part of a pending write lost, a sample table left behind is either complete and correct or is rejected by the table reader (cuts inside the very last number aside). Repeating the run in the same folder, with any number of ranks and any random numbers, produces exactly what it would produce in a fresh folder. The base table and the covariance store are unchanged.',
  ['crash_points', 'schedules', 'histories'],
  'for every operation of every rank as the kill point, every prefix of the write in flight, and every following run',
  'crash points and torn writes need a controlled file system; the effect is seen only across two runs',
  ['ASAPy/XsecSampler.py', 'ASAPy/AceIO.py', 'ASAPy/data/ace.py'],
  [('table writing', 'ASAPy/AceIO.py WriteAce.write_ace'), ('table reader length check', 'ASAPy/data/ace.py')])

p('C11', 'Damaged ENDF files are rejected, never looped on or read as something else',
  'Reading an evaluation file that is cut at any point, or whose reading is interrupted by an I/O error at any point, ends in bounded time, either with an error or with every section the reader returns being complete and equal to that of the intact file. Reading an intact file returns every section, the directory and the identification data exactly, however the bytes arrive. Reading all evaluations of a tape returns each material once and in order.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'for every synthetic evaluation tape, every cut position, every failing read and every chunking of the stream',
  'tests have no ENDF file; damage at arbitrary positions is what interrupted transfers produce',
  ['ASAPy/endf.py', 'ASAPy/data/endf.py'],
  [('section scanner', 'ASAPy/endf.py Evaluation, ASAPy/data/endf.py Evaluation'), ('tape scanner', 'get_evaluations')])

p('C12', 'Damaged ACE tables and matrix files are rejected, never read as something else',
  'Reading an ACE file (text or binary, one or many tables, old or new header) that is cut at any point, or whose reading fails at any point, ends with an error or returns only tables equal to those of the intact file, cuts inside the last number of a text table aside; an intact file is read back exactly, as a whole or table by table by name, and converting text to binary preserves every number. A matrix file of the converter that is cut at any point is rejected or gives the same data as the intact one. A conversion whose input or output fails is reported as failed.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'for every synthetic file, every cut position, every failing read or write and every chunking',
  'the failing position decides whether the damage is noticed; tests read no damaged file',
  ['ASAPy/data/ace.py', 'ASAPy/EndfToCov.py'],
  [('ACE readers', 'ASAPy/data/ace.py Library, ascii_to_binary'), ('matrix parser', 'ASAPy/EndfToCov.py read_boxer_out_matrix')])

p('C13', 'NJOY table production: tables of this run, in order, or an error',
  "When producing tables with NJOY succeeds, the table file and the directory file hold exactly this run's outputs for each requested temperature, in the requested order, with metastable nuclides renumbered, and no intermediate file is left. If NJOY fails, omits a table, or any file operation fails, the caller gets an error and no table of an earlier run is passed off as a result. Input files are never changed.",
  ['histories', 'fault_sequences', 'crash_points', 'configurations'],
  'for every list of temperatures, target, option set, history of runs sharing a folder, program failure, and failing file operation',
  'needs the external program and failures at chosen points; no test reaches this code',
  ['ASAPy/data/njoy.py'],
  [('table production', 'ASAPy/data/njoy.py make_ace, make_ace_thermal, run')])

p('C14', 'The table editor is a faithful store over any history of edits',
  'After any sequence of reads, edits, sum-rule applications and file replacements on a table, some of them rejected, each reaction holds the values last set for it (or the sum implied by the edits), every unadjusted value remains available unchanged, rejected edits change nothing, and what a caller does to arrays it was handed or passed in earlier does not leak into cross sections. Applying the sum rules again without new edits changes nothing, and the outcome does not depend on the order of edits of different reactions. Editors on the same file, used alternately, do not influence each other.',
  ['histories', 'schedules', 'fault_sequences'],
  'for every interleaved sequence of operations on one or two editors of one file, including failing ones',
  'state and aliasing bugs need particular multi-step sequences',
  ['ASAPy/AceIO.py'],
  [('editor state', 'ASAPy/AceIO.py AceEditor'), ('text replacement', 'ASAPy/AceIO.py WriteAce')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
