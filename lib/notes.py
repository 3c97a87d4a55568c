BASE = (' Trusted: TLC, the number tower of spec/Real.tla (its Java overrides are compared with the TLA+ '
        'definitions in the thorough tier of U01), the recording driver, and the sampling of inputs by the seeded generator.')
TECH = {}
NA = {}
NOTE = {
 'U01': 'Unit system specified exactly; all pairs and triples of unit names enumerated by TLC and replayed with random values in every container form; every result compared with the exact affine map to 1e-12.' + BASE,
 'H01': 'Oscillator sums specified in multi-precision TLA+; identities model-checked on a grid; every value of every sampled harmonic run recomputed by TLC (1e-9 relative) plus the identities between totals (1e-13).' + BASE,
 'H02': 'Restatements (order, weights, units, volume subsets) are behaviours of Restate.tla; each is run through the calculator and TLC compares the result with the reference run in SI, and the result file with the computed arrays.' + BASE,
 'G01': 'Grid.tla emits the exact decimal conditions of a range; TLC-enumerated and random ranges are given to both calculators and whole command-line runs, grids compared exactly in number and to 1e-12 in value.' + BASE,
 'Q01': 'Real-arithmetic TLA+ model of F(V,T)+PV (regression or EoS) evaluated by TLC at the reported volume: stationarity, positive curvature, K_T, K\' and the error path for models without minimum, on sampled crystals over both schemes, both minimisers, all equations of state, degrees and units. EoS fits are judged within regression tolerances.' + BASE,
 'Q02': 'All identities recomputed by TLC for every (T,P) cell of every sampled run from the reported volumes, including the short-grid rule and its warning; every dataset of the result file compared with the computed arrays and its unit.' + BASE,
 'Q03': 'Centred multi-precision regression in TLA+ recomputes every interpolated property at the reported volume; restated runs (other units) compared after exact conversion. Tolerances grow with the polynomial degree, because the regression in plain volume is ill-conditioned.' + BASE,
 'K01': 'Branch integrals specified in TLA+ by a double-exponential quadrature whose consistency (norm, S=-dF/dT, Cv=TdS/dT, classical and T^3 limits) is model-checked on a grid; every sampled value of the class and acoustic quasi-harmonic runs recomputed by TLC. The frequency-interpolation scheme ignores the option and is not covered.' + BASE,
}

NOTE.update({
 'E01': 'Closed forms of all formulations, orders and implied parameters specified in real-arithmetic TLA+; E(V) = -Integral P model-checked by quadrature; every P(V), E(V) and B0 recomputed by TLC for random parameters and compressions (1e-9 of the modulus). Tait is exercised where its closed form is real-valued.' + BASE,
 'E02': 'Fits are judged by their normal equations: TLC evaluates the weighted residual gradient at the returned parameters, the exact recovery of synthetic data, implied and fixed parameters, and the identity of repeated or interleaved fits. Starting values within 30 percent of the truth; bad starts that do not converge are out of scope.' + BASE,
 'E03': 'The menu dialogue is a TLA+ state machine (EosSession.tla) model-checked for its own invariants; its behaviours (breadth-first and simulated) are typed into the real command and each report is compared with the state of the machine and with a fresh fit of exactly those choices.' + BASE,
 'R01': 'TLA+ model of the file layout and of its meaning; TLC enumerates column orders, subsets, comment placements and defects, and sequences of files; each rendered file is read by the real reader and judged by TLC against the meaning.' + BASE,
 'R02': 'As R01, for full/upper/lower matrices with title and density variants and every malformed variant; a blank first line is out of scope (the repository\'s own tests fix its behaviour).' + BASE,
 'R03': 'As R01, for phonon YAML files: presence of keys, numeric layouts, and mis-sized blocks enumerated by TLC.' + BASE,
})

NOTE.update({
 'S01': 'Elastic.tla (Voigt algebra, averages, inertia by elimination) model-checked for rotation covariance, ordering and isotropic limits over crystals turned step by step; objects and full runs (report and result file) on all classes, soft, auxetic, turned and unstable matrices recomputed by TLC; eigenvalues are certified by counting sign changes. Matrices whose lowest eigenvalue is within 0.01 GPa of zero are not used.' + BASE,
 'S02': 'Directional formulas are contractions in Elastic.tla checked against the four-index tensors; returned values at random and special directions recomputed by TLC (1e-9). Reported extremes are judged at the reported axes and against adversarial directions found by an independent search; global optimality is therefore tested, not proved.' + BASE,
 'S03': 'Laue classes as linear relations (Symmetry.tla); TLC enumerates class x broken relation x displacement and checks closure, rank and lattice structure; each is realised with random constants and the reported class compared. Values within rounding of the tolerance are skipped.' + BASE,
 'S04': 'Every sampled row of every section of sampled runs, read from the result file, recomputed by TLC from the plane geometry, including exact transverse extremes; set of sections, sizes and units compared with the specification.' + BASE,
 'S05': 'The cache of the analysis is a TLA+ state machine (no cell outlives its direction); its histories over several analyses are replayed on the real object and TLC recomputes each answer from the current direction (eigen-systems, gradients, Hessians, enhancement). Group quantities are judged where the three velocities are distinct. The calculator is driven with a stand-in for its missing plotting base class.' + BASE,
})

NOTE.update({
 'I01': 'PhononOutput.tla models each output as its printed sections and states what the generated input must hold; TLC enumerates lists of whole, cut (after every section, and inside it), foreign, binary, missing and mismatching outputs with every reference. Each list is rendered with random sizes, cells, numbers and modes, given to the command or to the generator class (fresh or reused), and what the reader finds in the written file is recomputed by TLC from the printed numbers to the written precision. A table cut in the middle of a line is not detectable and not generated; expansion matrices have positive determinants.' + BASE,
 'I02': 'As I01, for CRYSTAL and VASP elastic outputs (ElasticOutput.tla): sections in every state, repeated sections, tables cut after any row, sequences of readers in one process; the matrix and density read back from the generated file are compared exactly with the printed ones to the written precision.' + BASE,
})

NOTE.update({
 'X01': 'ExportSession.tla is the dialogue (choose, confirm, other name, again) over symbolic names; TLC enumerates every dialogue over every set of existing files and checks that files change only as chosen and affirmed. Dialogues (all short ones, random long ones, some cut by end of input) are replayed on the command and on the exporter classes (fresh or reused for another file), with result files of real runs and with arbitrary values; TLC compares the folder and every number of every table with the stored data to the printed precision. The seismic exporter is run through its own command object (the program does not list it). Names in missing directories and the column label of the Poisson ratio are not judged.' + BASE,
})

NOTE.update({
 'C01': 'CommandSession.tla models each run as a transition of the files of one directory (names, kinds of contents, outcome, question, settings with their defaults); TLC checks every single run and sequences of runs for the protocol properties and generates sessions, which are typed into the real commands with random options, option spellings and orders. After each run TLC compares the whole directory, the question, the error, the lines shown and logged with the model, the stored data with those of the calculator classes given the settings of the specification, and a twin run of the other verbosity. Whether an analysis can be completed is taken from the classes. Interruption in the middle of a write is not considered.' + BASE,
 'C02': 'GeneratorSession.tla models each run of an input generator as a transition of the files of one directory (kinds of files, lists and what they name, interface, reference, output name, answer); TLC checks every single run and random sequences for the protocol properties and generates sessions, which are typed into the real command line in a directory of synthesised outputs; contents of every file before and after, errors, question, exit code, and the generated text (against the classes) and its job name (read back) are judged by GeneratorTrace.tla.' + BASE,
})

NOTE.update({
 'L01': 'Isolation.tla lets objects of five classes of kinds be created, load, run and save in any order; TLC checks that with cells of their own every object exposes exactly its history and that foreign steps change nothing, and that designs with shared cells, altered defaults or caches by name are excluded. The interleavings TLC generates are replayed over 32 concrete kinds; after each step everything every living object exposes (public attributes, files, what it returned earlier, the arguments of the caller) is compared by TLC with what the object alone in a fresh process exposes after the same history of its own. Only observable content is compared, up to 1e-7 for computed numbers.' + BASE,
})

NOTE.update({
 'P01': 'Report.tla is the report as an automaton over its parts (settings, job, input, static table or fit, quality of fits, one table for each pressure, saved files, figures, error); TLC checks for every configuration and point of failure that nothing is shown before it is known, an error is last and nothing is claimed after it. Runs of every configuration with random crystals, units and grids are driven through the commands, the reports parsed, and TLC compares the outline and every number with what was asked for, the input and the result file; the least-squares equation of state and its standard errors (EosLsq.tla), the quality of the polynomial fits and the static pressures are recomputed from the input. Numbers are judged to their printed precision; wording outside of the labels is not judged. The averages and wave velocities of elastic reports belong to S01.' + BASE,
})

NOTE.update({
 'P02': 'Figures.tla states which figures, panels, curves and names are due; a design model of drawing (one or two runs in a process) shows that figures of their own run with a radius covering every column satisfy the property, and that a radius from one column, or panels kept from an earlier figure, do not. Sessions generated by TLC are run through the command; at the moment a figure is saved its panels are read from matplotlib (curves, limits, legend) and TLC compares them with the stored sections of the run at sampled angles, and files, announcements and pixel sizes with the request. Colours, fonts and orientation are not judged.' + BASE,
})
