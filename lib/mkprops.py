#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("U01", "Unit conversions are exact, composable and side-effect free",
  "Converting a value between any two supported units of temperature, energy, pressure, frequency, length or volume, or between an energy density and a pressure, applies exactly the factor (or affine map) fixed by the CODATA/SI constants, identically for scalars, lists and arrays of any shape. Hence converting there and back returns the original value, and converting through an intermediate unit equals converting directly. Every documented unit name is accepted in any letter case, an unknown name is rejected, and the caller's data are never modified.",
  ["inputs"], "all ordered pairs (and triples) of documented unit names, all finite values, scalars, lists and arrays",
  "No test calls the unit conversions directly; the two HA/SOEC runs exercise one or two pairs with one value each.",
  ["quantas/utils/physics/units.py"],
  [("convert_temperature/energy/pressure/frequency/lenght/volume", "quantas/utils/physics/units.py"), ("energy_to_pressure, pressure_to_energy", "quantas/utils/physics/units.py")])

p("H01", "Harmonic properties are the exact oscillator sums and satisfy F = U - TS",
  "For every phonon data set, the harmonic zero-point energy, thermal energy, entropy, isochoric heat capacity and vibrational free energy at each temperature and volume are the weighted sums over all q-points and bands of the textbook quantum-oscillator expressions, with weights normalised to one and non-positive frequencies contributing nothing. The totals satisfy U = U0 + Uzp + Uth, F = U0 + Fvib and F = U - T*S at every grid point (entropy and heat capacity being given in thousandths of the energy unit per kelvin). At zero temperature thermal energy, entropy and heat capacity vanish and Fvib equals the zero-point energy.",
  ["inputs"], "all frequencies, weights, volumes, static energies and non-negative temperatures",
  "The HA test compares one MgO calculation at few temperatures with stored numbers; no identity is checked for any other frequency, weight or temperature, and negative frequencies or T=0 never occur.",
  ["quantas/utils/physics/statistical_mechanics.pyx", "quantas/harmonic/harmonic.py"],
  [("zero_point_energy, thermal_energy, entropy, vibrational_free_energy, isochoric_heat_capacity", "quantas/utils/physics/statistical_mechanics.pyx"), ("weight normalisation", "quantas/harmonic/harmonic.py HACalculator.run")])

p("H02", "Harmonic results are independent of units and ordering and saved completely",
  "Stating the same physical input in any supported energy, frequency, volume or temperature unit, reordering its q-points or bands, scaling all weights by a common factor, or splitting it into single-volume inputs leaves every harmonic result physically unchanged, and permuting the volumes permutes the results. The result file holds volumes, temperatures, static energies and all seven harmonic properties, each equal to the computed values on the full temperature-by-volume grid and labelled with the unit the user selected.",
  ["inputs", "configurations"], "all inputs, all 3x2x3x2 unit settings, all permutations of q-points, bands and volumes",
  "The test runs a single unit setting and order and does not read the result file back.",
  ["quantas/harmonic/harmonic.py", "quantas/utils/physics/units.py", "quantas/IO/qha_reader.py"],
  [("HACalculator.run/export_hdf5", "quantas/harmonic/harmonic.py")])

p("G01", "Temperature and pressure grids honour the requested range",
  "For every requested (minimum, maximum, step) the conditions evaluated by a harmonic or quasi-harmonic run are exactly minimum, minimum+step, minimum+2*step, ... up to and including every such value that does not exceed the maximum, and never a value beyond the maximum. The saved result arrays have one row (and column) for each of these conditions, in that order.",
  ["inputs", "configurations"], "all (min, max, step) triples with positive step, for temperature and pressure, with decimal fractions as steps",
  "Tests use a single temperature; end-point handling for steps that do not divide the range, or that are not exact in binary, is never exercised.",
  ["quantas/harmonic/harmonic.py", "quantas/qha/qha.py"],
  [("temperature and pressure setters", "quantas/harmonic/harmonic.py, quantas/qha/qha.py")])

p("Q01", "Quasi-harmonic volume minimises F(V,T)+PV and K_T is its curvature",
  "For every requested temperature and pressure the reported volume is a minimum of the Gibbs function F(V,T)+PV of the selected model: the polynomial of the selected degree, or the selected equation of state fitted to F+PV. The reported isothermal bulk modulus and its pressure derivative are those of that same model at that volume (for polynomial minimisation, V times the second volume derivative of the interpolated free energy, from the fitted polynomial or the interpolated frequencies according to the scheme), expressed in the selected pressure unit. If the model has no such minimum the run ends with an explanatory error and no result file.",
  ["inputs", "configurations"], "all phonon/energy data sets, temperatures, pressures, both schemes, both minimisation methods, all degrees, equations of state and units",
  "There is no test of the quasi-harmonic calculator at all.",
  ["quantas/qha/qha.py", "quantas/qha/utils/ev_eos.py", "quantas/utils/math/polynomials.py"],
  [("QHACalculator.minimize_volume/numerical_bulk_modulus", "quantas/qha/qha.py"), ("find_polynomial_minimum", "quantas/utils/math/polynomials.py"), ("EnergyEOS.fit", "quantas/qha/utils/ev_eos.py")])

p("Q02", "Quasi-harmonic derived properties satisfy the thermodynamic identities",
  "At every temperature and pressure of a quasi-harmonic run H = U + PV, G = F + PV, Cp - Cv = alpha^2 K_T V T, Cp = Cv + (Cp - Cv), K_S = K_T + alpha^2 K_T^2 V T / Cv and the Grueneisen parameter = alpha K_T V / Cv, in the selected units, where alpha is the temperature difference quotient of the reported volumes divided by the volume. With fewer than 50 temperatures alpha, Cp, Cp - Cv and the Grueneisen parameter are zero, K_S equals K_T and a warning says so. Every dataset of the result file equals the computed values and carries the unit they are expressed in.",
  ["inputs", "configurations"], "all inputs, temperature and pressure grids, schemes and unit settings",
  "There is no test of the quasi-harmonic calculator at all.",
  ["quantas/qha/qha.py", "quantas/utils/physics/thermodynamics.pyx"],
  [("QHACalculator._finalize_run/set_enthalpy/set_gibbs_free_energy/export_hdf5", "quantas/qha/qha.py"), ("enthalpy, gibbs, adiabatic_bulk_modulus, gruneisen_parameter", "quantas/utils/physics/thermodynamics.pyx")])

p("Q03", "Quasi-harmonic properties are the scheme's interpolation at V(T,P)",
  "With thermodynamic interpolation each reported energy, entropy, heat capacity and free energy at (T,P) is the least-squares polynomial of the selected degree through the harmonic values at the input volumes, evaluated at the reported volume; with frequency interpolation it is the harmonic value computed from the frequencies so interpolated and the interpolated static energy. Consequently F = U - T*S at every (T,P). Stating the same input and conditions in other supported units changes no reported physical value beyond rounding.",
  ["inputs", "configurations"], "all inputs, both schemes, all polynomial degrees, all unit settings",
  "There is no test of the quasi-harmonic calculator at all.",
  ["quantas/qha/qha.py", "quantas/utils/math/polynomials.py", "quantas/utils/math/fast_math.pyx"],
  [("run_thermodynamics_interpolation, run_frequency_interpolation", "quantas/qha/qha.py"), ("polyfit, interpolate", "quantas/utils/math/polynomials.py")])

p("K01", "Kieffer acoustic contributions are mutually consistent",
  "For every set of acoustic cut-off frequencies and every positive temperature, the acoustic (thermal) free energy F, entropy S and heat capacity Cv returned by the Kieffer model equal the integrals of the single-oscillator expressions over the sine-dispersion density of states, so that S = -dF/dT and Cv = T dS/dT. They vanish at zero temperature, add up over branches (degenerate branches each count), and Cv tends to one gas constant per branch at high temperature. A quasi-harmonic run by thermodynamic interpolation with the acoustic option adds exactly these contributions, and the thermal energy F + T*S, to the harmonic values at every volume and temperature.",
  ["inputs"], "all positive cut-off frequencies and temperatures, alone and in quasi-harmonic runs",
  "No test exercises the acoustic model.",
  ["quantas/qha/utils/kieffer.py", "quantas/qha/qha.py"],
  [("Kieffer.helmholtz/entropy/heat_capacity", "quantas/qha/utils/kieffer.py")])

p("E01", "Equation-of-state formulations reproduce their own parameters",
  "For every supported equation of state and order, the pressure is zero at the reference volume, the bulk modulus and its pressure derivatives there equal the given (or, at lower order, the documented implied) parameters, and pressure follows the documented closed form at every volume. Each energy-volume form has minimum energy E0 at V0 and its negative derivative equals the corresponding pressure-volume form, and reported pressures at a volume are those of that form. Axis data are described by the same equation in the length with linear moduli M0, M', M'', an implied M' being three times the volume value.",
  ["inputs", "configurations"], "all five formulations, all documented orders, all physical parameters and volumes, volume and axial data",
  "Tests only read EoS input files; no formula is evaluated.",
  ["quantas/eosfit/utils/pv_eos.py", "quantas/qha/utils/ev_eos.py"],
  [("Murnaghan, BirchMurnaghan, NaturalStrain, Vinet, Tait", "quantas/eosfit/utils/pv_eos.py"), ("EnergyEOS", "quantas/qha/utils/ev_eos.py")])

p("E02", "Equation-of-state fits are optimal, honour constraints and are repeatable",
  "For every data set, formulation, order, choice of fixed parameters and weights, a fit returns fixed parameters unchanged and free parameters at which the weighted sum of squared pressure residuals is stationary, with implied parameters computed from the fitted ones. Data generated from the equation itself are recovered. The fit does not modify the caller's data or starting values, and repeating it, or performing other fits before it, gives the same result.",
  ["inputs", "histories"], "all data sets, formulations, orders, subsets of fixed parameters, weightings, and sequences of fits",
  "Tests never perform a fit.",
  ["quantas/eosfit/utils/pv_eos.py"],
  [("EOS.fit, EOS.guess, EOS.check", "quantas/eosfit/utils/pv_eos.py")])

p("E03", "The interactive EoS session reports exactly the fit the user asked for",
  "Along every sequence of menu choices in an interactive equation-of-state session - data to fit, formulation, order, starting values, parameters to fix, weighting, continue with the same data or change - each report states the formulation, order, data, fixed parameters and weights in force, and its parameters and calculated pressures are those of a fresh fit with exactly those choices. Declining to update keeps the previous starting values, accepting replaces them, and earlier choices never leak into later fits. The session ends without a crash and everything reported is also in the log file.",
  ["histories"], "all sequences of menu answers over all kinds of P-V and P-axis data files",
  "The interactive command is not tested; menu sequences are unbounded.",
  ["quantas/eosfit/utils/interactive.py", "quantas/eosfit/eosfit.py", "quantas/eosfit/commands/cmd_eosfit.py"],
  [("interactive menu functions", "quantas/eosfit/utils/interactive.py"), ("EoSFit runner", "quantas/eosfit/eosfit.py")])

p("R01", "EoS input files are read faithfully whatever their layout",
  "For every equation-of-state input file built from JOB, FORMAT and DATA sections in the documented layout - keywords in any letter case, columns in any order and subset, comments and blank lines anywhere - the reader returns the job title and, for each declared quantity and each of its accepted names, exactly the column of numbers written in the file, and nothing for undeclared quantities. A file without FORMAT or without pressure is rejected with an error message instead of an exception, and what is read never depends on files read before.",
  ["inputs", "histories"], "all column permutations and subsets, comment placements, keyword spellings, numbers of rows, and sequences of files",
  "Tests read two fixed files in separate checks; other column orders, aliases or successive reads are not sampled.",
  ["quantas/IO/eos_reader.py"], [("EoSInputFileReader.load/set_data_format/set_data", "quantas/IO/eos_reader.py")])

p("R02", "Elastic-constant input files are read faithfully and symmetrically",
  "For every elastic-constant input given as a full, upper- or lower-triangular matrix with or without title line and density, the reader returns the same symmetric 6x6 matrix, the title and the density written in the file (defaults when absent). Files with too few rows, non-numeric entries, a non-symmetric matrix or a bad density are rejected with an error message and never marked complete. What is read never depends on files read before.",
  ["inputs", "histories"], "all symmetric matrices, three layouts, title and density present or not, malformed variants, sequences of files",
  "Tests read a handful of fixed files, each once.",
  ["quantas/IO/soec_reader.py"], [("SOECInputFileReader.load", "quantas/IO/soec_reader.py")])

p("R03", "Phonon input files are read faithfully and checked for completeness",
  "For every phonon input file in the documented format the reader exposes exactly the title, atom count, supercell size, volumes, energies, weights and frequencies of the file, each frequency at its q-point, band and volume, whichever accepted numeric layout is used. A file that lacks the atom count, supercell, q-point count, volumes, energies or phonons, is empty, or is not valid YAML is rejected with an error message and never marked complete. What is read never depends on files read before.",
  ["inputs", "histories"], "all documented files, missing-key combinations, malformed text, sequences of files",
  "Tests read a few fixed files.",
  ["quantas/IO/qha_reader.py"], [("QHAInputFileReader.load/_check and accessors", "quantas/IO/qha_reader.py")])

p("S01", "Elastic averages, compliance and stability are consistent with the stiffness",
  "For every symmetric non-singular stiffness matrix the compliance is its inverse, the Voigt, Reuss and Hill bulk, shear and Young moduli and Poisson ratio are those of the standard formulas, invariant under rotation of the crystal, with Reuss <= Hill <= Voigt for stable crystals, and the average wave velocities follow from the Hill moduli and the density. The reported eigenvalues are those of the stiffness matrix, sorted; a matrix that is not positive definite is reported as mechanically unstable and not analysed further.",
  ["inputs"], "all symmetric stiffness matrices, stable and unstable, and densities",
  "The SOEC test runs a single stable crystal.",
  ["quantas/soec/utils/soec_obj.py", "quantas/soec/soec.py"],
  [("SOEC.__init__/averages/isotropic_velocities", "quantas/soec/utils/soec_obj.py"), ("SOECCalculator.run", "quantas/soec/soec.py")])

p("S02", "Directional elastic properties and their extremes follow from the tensor",
  "For every stiffness matrix and direction the Young modulus, linear compressibility, shear modulus, Poisson ratio and wave velocities are the standard contractions of the elasticity tensors, whichever crystal system was recognised, and are unchanged when the direction is reversed. The reported minimum and maximum of each property are values attained along the reported axes, no direction gives a value outside them, the anisotropy is their ratio (infinite when the minimum is not positive), and the second axis is perpendicular to the first.",
  ["inputs"], "all stable stiffness matrices and all directions",
  "The SOEC test checks a few numbers for one crystal; the report's axes are not checked.",
  ["quantas/soec/utils/soec_obj.py", "quantas/soec/soec.py"],
  [("SOEC/SOECOrtho directional methods", "quantas/soec/utils/soec_obj.py"), ("directional_variation, minimize, maximize", "quantas/soec/soec.py")])

p("S03", "Crystal system recognition matches the symmetry of the stiffness matrix",
  "The crystal system reported for a stiffness matrix is the most symmetric Laue class whose required equalities, sign relations and zeros (in the standard axis setting) the matrix satisfies within tolerance: cubic, hexagonal, high/low trigonal, high/low tetragonal, orthorhombic, monoclinic or triclinic. Breaking any single required relation by more than the tolerance changes the class to one whose relations all still hold.",
  ["inputs"], "all symmetric matrices of every class and every single-relation perturbation of them",
  "Only one crystal is analysed by tests and its reported system is not asserted.",
  ["quantas/soec/utils/symmetry.py"], [("check_symmetry, run_check, Cij_symmetry", "quantas/soec/utils/symmetry.py")])

p("S04", "Polar sections sample the stated planes with the correct property values",
  "For every crystal the polar data on the xy, xz and yz planes are given on a full turn of equally spaced angles including both end points, and at each angle equal the directional properties of the crystal in that plane: Young modulus, positive and negative parts of linear compressibility, extremes over the transverse direction of shear modulus and Poisson ratio, and wave velocities in ascending order when a density is given. Opposite angles give equal values, and the result file contains exactly these arrays with their units.",
  ["inputs"], "all stable stiffness matrices, densities present or absent, all sampled angles and planes",
  "The test inspects no polar data.",
  ["quantas/soec/soec.py", "quantas/soec/utils/soec_obj.py"],
  [("calculate_polar_properties, export_hdf5", "quantas/soec/soec.py"), ("polar_*, shear_2d, poisson_2d", "quantas/soec/utils/soec_obj.py")])

p("S05", "Seismic wave analysis solves Christoffel's equation with no stale state",
  "For every stiffness matrix, density and propagation direction, the phase velocities squared times density are the eigenvalues of the Christoffel matrix in ascending order with orthonormal polarisations, and group velocity, power-flow angle and enhancement factor are those derived from the same matrix. Whatever sequence of direction changes and queries was made before, in whatever coordinates the direction is given, the answers are those a fresh analysis gives for the current direction.",
  ["inputs", "histories"], "all stiffness matrices, densities, directions and all interleavings of direction changes and queries",
  "No test touches the seismic module.",
  ["quantas/seismic/utils/seismic_obj.py"], [("Seismic direction setters and cached getters", "quantas/seismic/utils/seismic_obj.py")])

p("I01", "Generated phonon inputs reproduce the ab initio output",
  "For every supported lattice-dynamics output (CRYSTAL frequency runs single or listed, CRYSTAL QHA runs, phonopy) the generated input file, when read back, gives the atom count, supercell, volumes, energies, q-points, weights and frequencies printed in that output, with volumes in the order the files were listed and structure data from the chosen reference file. A missing file, an incomplete output, listed outputs that do not describe the same atoms, supercell and number of q-points as the reference, or a reference outside of the list is reported as an error and no input file is written, and nothing depends on files processed earlier.",
  ["inputs", "histories"], "all output sizes (atoms, q-points, supercells, volumes), file lists and orders, references, and sequences of generations",
  "Tests use one small fixed output per interface.",
  ["quantas/IO/qha_writer.py", "quantas/interfaces/crystal.py", "quantas/interfaces/phonopy.py"],
  [("QHAInputCreator.read/write", "quantas/IO/qha_writer.py"), ("CrystalPhononReader, CrystalQHAReader", "quantas/interfaces/crystal.py"), ("PhonopyReader", "quantas/interfaces/phonopy.py")])

p("I02", "Generated elastic inputs reproduce the ab initio elastic constants",
  "For every CRYSTAL or VASP elastic-constant output the generated input file, when read back, gives the printed stiffness matrix in GPa in the standard Voigt order (xx, yy, zz, yz, xz, xy), symmetric, and the density printed in the output (zero when it holds none) within the file's printed precision. An output without a complete table of elastic constants is reported as an error, and nothing depends on files processed earlier.",
  ["inputs", "histories"], "all elastic tensors, cell sizes and compositions, and sequences of generations",
  "Tests use one fixed output per interface.",
  ["quantas/IO/soec_writer.py", "quantas/interfaces/crystal.py", "quantas/interfaces/vasp.py"],
  [("SOECInputCreator", "quantas/IO/soec_writer.py"), ("CrystalSOECReader", "quantas/interfaces/crystal.py"), ("VASPSOECReader", "quantas/interfaces/vasp.py")])

p("X01", "Exported tables hold exactly the data of the result file",
  "For every result file of a harmonic, quasi-harmonic, elastic or seismic wave run and every dataset offered for export, the exported text table shows each stored value once, to its printed precision, against the temperature and volume, pressure or angle it belongs to (values stored once for all temperatures are shown once), with the dataset and its stored unit (where it has one) in the heading. A sequence of exports in one session produces exactly the chosen files, an existing file is replaced only after confirmation of that very name, and a file that is not such a result is refused with an error.",
  ["inputs", "histories"], "all result files, grid sizes, datasets, and sequences of export selections and confirmations",
  "No test exports anything.",
  ["quantas/harmonic/utils/export.py", "quantas/harmonic/utils/table.py", "quantas/qha/utils/export.py", "quantas/qha/utils/table.py", "quantas/soec/utils/export.py", "quantas/soec/utils/table.py", "quantas/seismic/utils/export.py"],
  [("Quantas*Export.load/run", "quantas/*/utils/export.py"), ("table writers", "quantas/*/utils/table.py")])

p("C01", "Every command leaves exactly the promised files and never loses results silently",
  "For every command line of the calculation commands (ha, qha, soec, eosfit), a successful run writes the log and, except for eosfit, the result file under the requested or default base name (and the figures when asked for) and changes no other file; the stored data are those of the analysis with the requested options, or their documented defaults. Apart from questions and menus the log contains everything shown on screen, and quiet mode changes only what is shown, not what is logged or stored. An existing result file is replaced only after an affirmative answer and is otherwise left byte-for-byte intact, and the input file never changes. When the options or output names cannot be used, the input cannot be read or the analysis cannot be completed, an error is shown, the program does not crash and no result file appears or changes.",
  ["configurations", "histories", "inputs"], "all combinations of command, output option, quiet/debug flags, unit options, pre-existing files, prompt answers and good/bad inputs, in any sequence in one directory",
  "Command-line behaviour is not tested.",
  ["quantas/harmonic/commands/cmd_ha.py", "quantas/qha/commands/cmd_qha.py", "quantas/soec/commands/cmd_soec.py", "quantas/eosfit/commands/cmd_eosfit.py", "quantas/cmdline/utils/messages.py"],
  [("command functions", "quantas/*/commands"), ("echo, confirm, init_logfile", "quantas/cmdline/utils/messages.py")])

p("C02", "Input generators write exactly the input asked for and keep what they read",
  "For every command line of the input generators (inpgen ha and inpgen soec), for every kind of file, list of files, interface, reference, output name and answer to the question about the title, and in any sequence in one directory: a successful run writes the input under the requested or default name, holding what the ab initio outputs hold and the title typed (or its default), and changes no other file. The outputs it is made from, the list that names them and the displacement files of phonopy never change. When the command line is wrong, the outputs are missing, not readable, of another code or of different crystals, the reference does not exist, or the output name cannot be used (a missing folder, a directory, or one of the files read), an error is shown; then, and when no title is given because the input ends, no file appears or changes and the program does not crash.",
  ["configurations", "histories", "inputs"], "all combinations of generator, source file or list, interface, reference, output name, existing files and answers, in any sequence in one directory",
  "The generators' commands are not tested; the classes are on a handful of outputs.",
  ["quantas/harmonic/commands/cmd_inpgen.py", "quantas/soec/commands/cmd_inpgen.py", "quantas/IO/qha_writer.py", "quantas/IO/soec_writer.py", "quantas/cmdline/utils/general.py"],
  [("ha_inpgen, soec_inpgen", "quantas/*/commands/cmd_inpgen.py"), ("QHAInputCreator.read, write", "quantas/IO/qha_writer.py"), ("check_output", "quantas/cmdline/utils/general.py")])

p("L01", "Independent calculations in one process do not influence each other",
  "Whatever sequence of readers, calculators, input generators and exporters is created and used in one process, the data, results, warnings and errors each of them exposes are those it would expose had it been the only one created. In particular data exposed by an object never change when another object is created or used, and defaults are never altered by use.",
  ["histories"], "all interleavings of creation, loading, running and querying of several objects of every kind",
  "Tests create one object of a kind per case and never re-inspect an earlier one.",
  ["quantas/IO", "quantas/core", "quantas/interfaces", "quantas/harmonic/utils/export.py", "quantas/qha/utils/export.py", "quantas/soec/utils/export.py"],
  [("per-instance state initialisation", "quantas/core/reader.py, quantas/core/calculator.py and subclasses")])

p("P01", "Reports show what was asked for, read and computed, and only that",
  "The report of a run of ha, qha or soec names the settings that were asked for (units, temperature and pressure ranges, degrees, approach) and then what the input holds: job, numbers of volumes, atoms, k-points and frequencies sampled, volumes and static energies, or density, stiffness and compliance matrix (also for seismic runs), each number to its printed precision and under its own label and unit. A quasi-harmonic report gives the static pressure of every volume, with the equation of state also the least-squares parameters whose bracketed standard errors refer to the last digits shown, the quality of every frequency fit and its verdict, and for each pressure one table whose rows are the temperatures with the saved volume, expansion, moduli and Cp - Cv (in J/mol K). The equation-of-state command shows every datum read and which variables have standard deviations. A failing run gives its reason last, never claiming results, saved files or figures that do not exist.",
  ["inputs", "configurations"], "all inputs, units, schemes, minimisation methods, equations of state, temperature and pressure grids, and failures at every stage",
  "The text of the reports is not tested at all.",
  ["quantas/harmonic/harmonic.py", "quantas/qha/qha.py", "quantas/qha/utils/ev_eos.py", "quantas/soec/soec.py", "quantas/seismic/seismic.py", "quantas/eosfit", "quantas/IO/qha_reader.py", "quantas/cmdline/utils/messages.py"],
  [("show_settings, report_input_data, eos parameters, R2 tables, result tables", "quantas/harmonic/harmonic.py, quantas/qha/qha.py"), ("report of matrices", "quantas/soec/soec.py, quantas/seismic/seismic.py"), ("echo functions", "quantas/cmdline/utils/messages.py")])

p("P02", "Polar figures show the sections of their own run, entirely",
  "For every elastic analysis with polar properties and figures requested, each property that the run computes gets exactly one figure, written at the requested resolution under the name announced, with one polar panel for each plane (labelled xy, xz, yz). Each panel holds one curve for each stored column of the section of that property and plane of that very run, at the stored angles and values, named in the legend after what the column is, and no part of any curve lies outside of the visible radial range. This holds for crystals with negative linear compressibility or negative Poisson ratios, and for any number of analyses in one process; without figures requested, without polar properties, or for an unstable crystal, no figure is made.",
  ["inputs", "configurations", "histories"], "all stiffness matrices (including negative compressibility and auxetic), densities, options and sequences of analyses in one process",
  "No test draws a figure.",
  ["quantas/soec/utils/plotting.py", "quantas/soec/soec.py"],
  [("*_polar_plot", "quantas/soec/utils/plotting.py"), ("plotting in SOECCalculator.run", "quantas/soec/soec.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
