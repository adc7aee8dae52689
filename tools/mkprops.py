#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below."""
import json, os
S = "src/qutip_qtrl/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("P01", "Evolution operators are the ordered product of the slot propagators",
  "After any history of pulse updates, re-initialisations and reads, each timeslot's propagator is the exponential of that slot's phased generator (drift plus amplitude-weighted controls of that slot) times its duration, and the forward, onward and onto-target operators for every slot index are the products of those propagators in time order applied to the initial operator, nothing, or the inverse target. The full evolution is the forward operator at the final time. The public operator lists show the same operators as used for the fidelity.",
  ["histories", "configurations", "inputs"],
  "Every sequence of amplitude updates (changed, partly changed, unchanged, tiny change), reads and re-initialisations; all dynamics types, operator representations, caching flags, propagator methods, constant or per-slot drift and controls, operator or state initial/target.",
  "Tests run a few optimisations end to end on one or two gates and look at the final fidelity; they never check intermediate operators, slot order for non-commuting slots, or histories of updates.",
  ["dynamics.py", "tslotcomp.py", "propcomp.py"],
  [("evolution recomputation", "tslotcomp.py:TSlotCompUpdateAll.recompute_evolution"), ("generator assembly and phase", "dynamics.py:Dynamics._combine_dyn_gen"), ("public operator views", "dynamics.py:Dynamics.fwd_evo/onwd_evo/onto_evo/prop/full_evo")],
  [("evo_current", "evolution lists correspond to the current amplitudes")])

p("P02", "Fidelity error is the documented measure of the current pulse",
  "At any point of any history of pulse updates and reads, the reported fidelity error equals the documented measure (phase-insensitive overlap, phase-sensitive overlap, or scaled trace difference) evaluated on the evolution produced by the most recently supplied amplitudes. No read order, repeated read, gradient read in between or unchanged update may make it stale, and amplitudes changed in the caller's buffer only count once supplied again.",
  ["histories", "configurations", "inputs"],
  "Every interleaving of updates, fidelity/gradient/evolution reads and re-initialisations; every fidelity type and phase option; unitary, general-matrix and symplectic dynamics; operator and state targets.",
  "The tests only look at whether an optimiser reached a goal, so a fidelity that is stale after particular orders of reads, or wrong for one phase option or target shape, is invisible to them.",
  ["fidcomp.py", "tslotcomp.py", "dynamics.py"],
  [("fidelity caching flags", "fidcomp.py:FidelityComputer.flag_system_changed"), ("change detection", "tslotcomp.py:TSlotCompUpdateAll.compare_amps"), ("normalisation", "fidcomp.py:FidCompUnitary.normalize_PSU/normalize_SU"), ("trace difference", "fidcomp.py:FidCompTraceDiff.get_fid_err")],
  [("fidelity_current / fidelity_prenorm_current", "cached values belong to current amplitudes")])

p("P03", "The reported gradient is the derivative of the reported fidelity error",
  "For every timeslot and every control, the reported gradient entry equals the derivative of the reported fidelity error with respect to that amplitude at the current pulse (exactly for exact-gradient methods, to first order in the documented step for the approximate method), in an array indexed slot by control. It is current after any history of updates and reads, and the reported gradient norm is the Euclidean norm of that array.",
  ["histories", "configurations", "inputs"],
  "Every slot/control entry, every history of updates and reads, all dynamics/fidelity/propagator types, per-slot drifts and controls, degenerate and non-commuting generators, unequal slot durations.",
  "Tests check a finite-difference gradient only for one unitary system right after initialisation; optimisers also still converge with slightly wrong gradients.",
  ["fidcomp.py", "propcomp.py", "dynamics.py"],
  [("unitary gradient", "fidcomp.py:FidCompUnitary.compute_fid_grad"), ("trace-difference gradient", "fidcomp.py:FidCompTraceDiff.compute_fid_err_grad"), ("approximate gradient", "fidcomp.py:FidCompTraceDiffApprox.compute_fid_err_grad"), ("propagator derivative", "propcomp.py:_compute_prop_grad")])

p("P04", "Operator representation and caching choices never change results",
  "For the same physical problem and the same history, fidelity error, gradient and evolution agree (to rounding) whichever operator representation, memory-optimisation level, caching switch, or exact propagator method is selected, and whichever of the equivalent ways of supplying the generators (one or per-slot drift, flat or per-slot controls) is used. A supported combination never fails on a problem another combination solves.",
  ["configurations", "histories", "inputs"],
  "The cross product of representation, memory level, the three caching switches, propagator method, and constant versus repeated per-slot generators, over random histories.",
  "A test exercises one combination on one problem; the cross product with histories is out of reach of hand-written cases.",
  ["dynamics.py", "propcomp.py", "fidcomp.py"],
  [("memory optimisation choice", "dynamics.py:Dynamics._set_memory_optimizations"), ("representation choice", "dynamics.py:Dynamics._choose_oper_dtype"), ("propagator methods", "propcomp.py"), ("spectral decomposition", "dynamics.py:DynamicsUnitary._spectral_decomp")])

p("P05", "Dynamics preserve their structure and phase convention",
  "Under Hermitian generators every slot propagator and the full evolution is unitary, and under symmetric generators of a symplectic system every slot propagator and the full evolution S satisfies the symplectic condition with the interleaved symplectic form, whichever side the phase is applied on. The symplectic form for n modes is the antisymmetric block-diagonal matrix of n blocks [[0,1],[-1,0]].",
  ["inputs", "configurations", "histories"],
  "Every number of modes, random Hermitian / symmetric generators and amplitudes, both phase sides, all propagator methods and representations.",
  "Only one symplectic optimisation is tested and structure preservation is never asserted.",
  ["dynamics.py", "symplectic.py", "propcomp.py"],
  [("symplectic form", "symplectic.py:calc_omega"), ("phase application", "dynamics.py:DynamicsSymplectic._get_dyn_gen_phase"), ("unitary propagator", "dynamics.py:DynamicsUnitary._spectral_decomp")])

p("P06", "An optimisation stops for the reason it reports, and only then",
  "Whatever sequence of function, gradient and iteration callbacks the underlying minimiser makes, the run ends at the first event that meets a termination condition (error at or below target, function calls beyond the limit, gradient norm below the minimum, wall time beyond the limit) or when the minimiser returns, and the reported reason and the outcome flags name exactly that event. Goal achieved is reported exactly when an evaluated pulse met the target error.",
  ["schedules", "inputs", "configurations"],
  "All minimiser call sequences up to a bound, with errors, gradient norms and clock readings below/at/above each limit, for every optimiser class, and recorded runs of the real minimisers.",
  "Tests see the few call sequences real minimisers happen to make on easy problems, nearly always ending with the goal; orders that hit several limits together, exact equality with a limit or other optimiser classes are not reached.",
  ["optimizer.py", "errors.py", "termcond.py", "optimresult.py"],
  [("function wrapper", "optimizer.py:Optimizer.fid_err_func_wrapper"), ("gradient wrapper", "optimizer.py:Optimizer.fid_err_grad_wrapper"), ("iteration callback", "optimizer.py:Optimizer.iter_step_callback_func"), ("result mapping", "optimizer.py:Optimizer._interpret_term_exception")])

p("P07", "The result describes the pulse that is left in the system",
  "The result's final amplitudes, final fidelity error, final evolution, final fidelity and the dynamics' own state all belong to one and the same pulse: the one last evaluated when the run was terminated, or the one the minimiser returned. The initial amplitudes, error and evolution belong to the pulse set before the run and stay unchanged by it; the time grid, iteration count, function call count and elapsed time equal what happened in this run.",
  ["schedules", "histories", "configurations"],
  "All minimiser call sequences up to a bound (including minimisers that reuse their argument buffer or return a point not evaluated last), every optimiser class, fidelity type and dynamics type; later use of the dynamics after the result was returned.",
  "Tests compare final amplitudes with a couple of expectations on easy runs; mismatched fields or aliasing only show on particular call orders.",
  ["optimizer.py", "optimresult.py", "dynamics.py"],
  [("result creation", "optimizer.py:Optimizer._create_result"), ("common attributes", "optimizer.py:Optimizer._add_common_result_attribs")])

p("P08", "Repeated runs are independent of earlier runs",
  "Running the same optimiser object again after resetting the pulse gives a run that depends only on the current settings: counters, iteration records, statistics and outcome flags start afresh, and termination limits, bounds and method options changed between runs are the ones passed to the minimiser. Earlier result objects are not altered by later runs.",
  ["histories", "configurations"],
  "All sequences of up to three runs with settings changed in between, for each optimiser class.",
  "Tests make one or two runs with unchanged settings on one optimiser class.",
  ["optimizer.py", "stats.py", "optimresult.py"],
  [("run initialisation", "optimizer.py:Optimizer.init_optim"), ("method options", "optimizer.py:Optimizer._build_method_options"), ("bounds", "optimizer.py:Optimizer._build_bounds_list")])

p("P09", "Amplitude bounds are honoured from option to final pulse",
  "The bounds handed to the minimiser are, for each slot and control, that control's lower and upper bound (infinite means none; bounds set explicitly per variable are used as given), the initial pulse lies within them, and with a bound-respecting method or CRAB every evaluated and final amplitude lies within them. Scalar and per-control list bounds, zero bounds and one-sided bounds all behave this way.",
  ["configurations", "inputs"],
  "All combinations of absent/infinite/zero/negative/positive, scalar/list lower and upper bounds, number of controls and slots, pulse types, GRAPE and CRAB.",
  "Tests use one or two symmetric scalar bounds; zero, one-sided, per-control and infinite ones are not reached.",
  ["optimizer.py", "pulseoptim.py", "pulsegen.py"],
  [("bounds list", "optimizer.py:Optimizer._build_bounds_list"), ("pulse bounds", "pulsegen.py:PulseGen._apply_bounds_and_offset"), ("CRAB bounds", "pulsegen.py:PulseGenCrab._apply_bounds"), ("bounds wiring", "pulseoptim.py:create_pulse_optimizer")])

p("P10", "In-memory dumps record the run faithfully",
  "At each dump level, exactly the selected items are recorded: one summary per iteration or evolution computation with consecutive indices and the counters at that time, one entry per function or gradient call equal to the value returned by that call, and copies of exactly the selected operators of each computation that later computations do not alter. The reported level reflects the selection, changing level or clearing affects only later records, and CUSTOM starts as SUMMARY and keeps the user's selection.",
  ["histories", "configurations", "schedules"],
  "All sequences of level changes, switch settings, clears, updates, reads and optimiser callbacks up to a bound.",
  "One test runs each predefined level once with default settings and checks list lengths.",
  ["dump.py", "tslotcomp.py", "optimizer.py", "dynamics.py"],
  [("levels", "dump.py:OptimDump._apply_level/DynamicsDump._apply_level"), ("recording", "dump.py:DynamicsDump.add_evo_dump"), ("dump trigger", "tslotcomp.py:TimeslotComputer.dump_current")])

p("P11", "Dump files hold exactly what was recorded",
  "Files written during a run or on request contain exactly the recorded summaries, logs and operators: the summary file has one header and one line per record, log files one line per call, each operator section the operators of its own kind for all slot indices, under the configured directory and names. Written on request or during the run, to a directory, a file name or a stream, the same data appears, and a directory that cannot be created suppresses output instead of failing the run.",
  ["histories", "configurations", "fault_sequences"],
  "All dump levels and custom selections, representations, writeout targets, separators, extensions, repeated writeouts, uncreatable directories.",
  "A test checks that the expected file names exist for the predefined levels; contents, stream/one-file targets and custom selections are not checked.",
  ["dump.py", "io.py"],
  [("item writeout", "dump.py:EvoCompDumpItem.writeout"), ("dump writeout", "dump.py:OptimDump.writeout/DynamicsDump.writeout"), ("directory creation", "io.py:create_dir")])

p("P12", "Statistics count exactly the work done",
  "After any history of updates, reads and minimiser callbacks, the collected statistics equal the number of events that happened: function and gradient calls, fidelity, gradient and evolution computations actually performed (never more than one per pulse change), pulse updates, changed amplitudes and changed timeslots, iterations. The derived means are the corresponding ratios, undefined rather than failing when nothing was counted, and collecting statistics does not change any result.",
  ["histories", "schedules"],
  "All interleavings of updates with different numbers of changed entries, fidelity/gradient/evolution reads, and optimiser callbacks, up to a bound.",
  "Tests check that a few totals are positive after one run.",
  ["stats.py", "tslotcomp.py", "fidcomp.py", "optimizer.py"],
  [("amplitude statistics", "tslotcomp.py:TSlotCompUpdateAll.compare_amps"), ("means", "stats.py:Stats.calculate"), ("compute counters", "fidcomp.py")])

p("P13", "Generated pulses respect scaling, offset and bounds for every generator",
  "For every pulse type, the generated pulse has one value per timeslot, lies within the given bounds, and equals scaled-shape plus offset exactly whenever that already fits; otherwise it is that shape shifted just onto the bound (one bound), or shifted onto the lower bound and, if its range is too large, uniformly compressed to the bounds' range (two bounds), never distorted. Infinite bounds mean no bound, an upper bound below the lower bound is rejected, and random generators stay within their documented range.",
  ["inputs", "configurations", "histories"],
  "All generators, with all combinations of absent/infinite/finite lower and upper bounds, scalings, offsets, slot counts and durations, repeated generation from one generator.",
  "Tests generate each pulse once with at most one pair of bounds.",
  ["pulsegen.py"],
  [("bounds and offset", "pulsegen.py:PulseGen._apply_bounds_and_offset"), ("initialisation", "pulsegen.py:PulseGen.init_pulse")])

p("P14", "Deterministic pulse shapes are the documented functions of time",
  "Linear, sine, square, saw-tooth, triangle, Gaussian, Gaussian-edge and zero pulses take at each slot's start time the value of the documented waveform for the current parameters. Number of waves, wavelength and frequency are consistent with each other and the pulse duration, whichever one was given last determines the others, and re-initialising or regenerating without new parameters reproduces the same pulse.",
  ["inputs", "histories"],
  "All waveforms over grids of frequency / number of waves / wavelength / phase / duration / slot durations, with sequences of re-parameterisation and regeneration.",
  "Tests check value range and periodicity of a few default waveforms, not the values or the sequences of parameter changes.",
  ["pulsegen.py"],
  [("periodic parameters", "pulsegen.py:PulseGenPeriodic.init_pulse"), ("waveforms", "pulsegen.py:gen_pulse"), ("line", "pulsegen.py:PulseGenLinear.init_pulse")])

p("P15", "A CRAB pulse is the documented function of its coefficients",
  "For any coefficient vector, each control's pulse is the truncated Fourier sum of its own block of the vector at its frequencies, combined with the guess pulse by the chosen action, multiplied by the ramping pulse, then limited by the bounds, in that order. The vector read back equals the one set, its length is the sum over controls, the number of coefficients defaults from the system size, and optimising frequencies adds one variable per coefficient.",
  ["inputs", "configurations", "histories"],
  "All combinations of number of coefficients and controls, guess action, ramping, bounds, fixed/optimised frequencies, coefficient vectors.",
  "Tests only run CRAB optimisations to a goal with default layout and one guess type.",
  ["pulsegen.py", "optimizer.py", "pulseoptim.py"],
  [("Fourier expansion", "pulsegen.py:PulseGenCrabFourier.gen_pulse"), ("variable layout", "optimizer.py:OptimizerCrab._get_ctrl_amps"), ("guess and ramp", "pulsegen.py:PulseGenCrab.init_guess_pulse")])

p("P16", "The timeslot grid is always consistent with the last setting",
  "After any sequence of setting the number of slots, the total time or explicit durations and of (re)initialising, the number of slots equals the number of durations, the durations sum to the total time, the time grid starts at zero and is their cumulative sum, and equal durations are used unless explicit ones were the last setting. The grid used by evolution, pulse generators, saved files and results is that one.",
  ["histories", "inputs"],
  "All sequences of up to five settings/initialisations over the three attributes.",
  "Tests set either the number of slots and time once, or explicit durations once.",
  ["dynamics.py", "pulsegen.py"],
  [("slot initialisation", "dynamics.py:Dynamics.init_timeslots"), ("setters", "dynamics.py:Dynamics.num_tslots/evo_time/tau")])

p("P17", "Option names select the documented components, invalid ones are rejected",
  "For every combination of algorithm, method, dynamics, propagator, fidelity and pulse options (in any letter case where the option is case-insensitive), the optimiser that is created has the documented component of each kind with the given parameters applied and documented defaults otherwise. Unknown options, missing timing, wrong operand types and mismatched controls or drifts are rejected with a usage, type or value error before anything runs.",
  ["configurations", "inputs"],
  "The cross product of all option values including defaults, different case, and invalid values.",
  "Tests cover around fifteen of several thousand combinations and few rejections.",
  ["pulseoptim.py", "dynamics.py", "optimconfig.py", "pulsegen.py"],
  [("factory", "pulseoptim.py:create_pulse_optimizer"), ("operand checks", "dynamics.py:_check_ctrls_container/_check_drift_dyn_gen"), ("pulse factory", "pulsegen.py:create_pulse_gen")])

p("P18", "Convenience entry points equal the general one and leave arguments intact",
  "Each convenience or deprecated way of asking for an optimisation (unitary, CRAB, CRAB-unitary functions, deprecated parameter names) configures and runs exactly what the general function does with the corresponding arguments; explicit entries in parameter dictionaries take precedence over the shorthand ones. No call modifies the dictionaries, lists, arrays or operators the caller passed.",
  ["configurations", "inputs", "histories"],
  "All subsets of the shorthand and deprecated arguments with and without a conflicting explicit entry, for the four functions; repeated calls sharing the same argument objects.",
  "Tests call each function with few arguments once and never compare them with each other or inspect arguments afterwards.",
  ["pulseoptim.py"],
  [("wrappers", "pulseoptim.py:optimize_pulse_unitary/opt_pulse_crab/opt_pulse_crab_unitary"), ("deprecation", "pulseoptim.py:optimize_pulse")])

p("P19", "Parameter files set exactly the named attributes with the right types",
  "Loading a parameter file sets, on each given object, every option of that object's section that names an existing attribute to the file's value converted to the attribute's current type, and touches nothing else: sections of objects not given, and options without an attribute, are ignored. A missing file is an error; a value that cannot be converted leaves that attribute as it was.",
  ["inputs", "configurations"],
  "All combinations of sections, attribute types, value spellings, unknown options, bad values, and given objects.",
  "One test loads one well-formed file.",
  ["loadparams.py"],
  [("sections", "loadparams.py:load_parameters"), ("conversion", "loadparams.py:set_param")])

p("P20", "Stand-alone GRAPE routines ascend within limits and return what they claim",
  "The gradient-ascent routines return for each iteration the pulses whose first entry is the starting pulse clipped to the limits, each next entry being the previous one plus step times the (first order) gradient of the overlap less the power and lateness penalties, clipped to the limits; both implementations agree. The adaptive routine moves by half, the same or double its step, whichever gives the best overlap, stays where it is with a smaller step when all are worse than what it has, and ends early only when the overlap asked for is reached. The returned final unitary and Hamiltonian are those generated by the returned final pulse.",
  ["inputs", "configurations"],
  "Starting pulses, limits, penalty, step size, slot and iteration counts, phase sensitivity, for all variants.",
  "Tests only check that the overlap after many iterations is high for one gate per variant.",
  ["grape.py", "cy_grape.py"],
  [("gradient ascent", "grape.py:grape_unitary"), ("inner routine", "cy_grape.py:cy_grape_inner"), ("adaptive step", "grape.py:grape_unitary_adaptive")])

p("P21", "Saved amplitude files hold the pulse they claim",
  "Saving amplitudes writes one line per timeslot with its start time (unless excluded) followed by each control's amplitude, for the current pulse or the one given, to the named or default file; with a file extension requested, the initial and final files hold the result's initial and final amplitudes, and with none requested no file appears.",
  ["inputs", "configurations", "histories"],
  "All combinations of name, times, amplitudes options, shapes and entry points.",
  "Tests check that files exist and the shape for one configuration.",
  ["dynamics.py", "pulseoptim.py"],
  [("saving", "dynamics.py:Dynamics.save_amps"), ("output files", "pulseoptim.py:optimize_pulse")])

p("P22", "Old and alternative names give what their replacements give",
  "After any history of pulse updates, re-initialisations and reads, every deprecated or alternative name (methods and attributes of the dynamics, propagator, fidelity and timeslot objects, and the Hamiltonian names of unitary dynamics) returns what the name replacing it stands for: the current generators, phased generators, propagators, their derivatives, evolution lists, target inverse, number of controls and flags. Using them does not disturb any later result.",
  ["histories", "configurations"],
  "All old names at every settled point of every history, for every representation, caching option, propagator and fidelity measure, constant and per-slot generators.",
  "Tests never call the old names after the objects were rewritten around the new ones.",
  ["dynamics.py", "propcomp.py", "fidcomp.py", "tslotcomp.py"],
  [("old names", "dynamics.py:combine_dyn_gen/get_dyn_gen/get_ctrl_dyn_gen/evo_*"), ("propagators", "propcomp.py:compute_propagator/compute_prop_grad/compute_diff_prop"), ("Hamiltonian names", "dynamics.py:DynamicsUnitary._map_dyn_gen_to_ham")])

p("P23", "How much is logged never changes what happens",
  "Any call of the entry points, any history of a dynamics object and any optimisation run gives the same configuration, results, errors, counters, dumps and random draws whichever logging levels are set on its parts, and whenever they are changed; every message that is logged can be formatted; arguments are not changed by logging.",
  ["histories", "configurations", "inputs"],
  "All logging levels on all parts (dynamics, optimiser, computers, pulse generators), all combinations of options, all histories.",
  "Tests run quietly (or at one level), so code executed only when messages are wanted is never compared with the quiet run.",
  ["pulseoptim.py", "optimizer.py", "dynamics.py", "tslotcomp.py", "propcomp.py", "fidcomp.py", "pulsegen.py"],
  [("messages of a call", "pulseoptim.py:optimize_pulse"), ("messages of a run", "optimizer.py:run_optimization/fid_err_func_wrapper"), ("messages of a computation", "dynamics.py:update_ctrl_amps, tslotcomp.py:recompute_evolution")])

p("P24", "Objects set up by hand work as the settings in force say",
  "Dynamics and optimisers put together by hand - generators, controls, initial operator, target, timeslots, components and options set in any order and set again later, by whichever name - behave after an initialisation exactly as the settings in force say, whatever was set, initialised, run or refused before. An initialisation or run attempted while something is missing, of a wrong type or inconsistent is refused with a usage, type or value error, loses nothing that was set and does not count as an initialisation; refused option values leave the option as it was, and options that can be changed at any time count at once.",
  ["histories", "configurations", "inputs"],
  "All orders of settings, corrections and re-settings (other generators, per-slot ones, other numbers of controls and slots, systems of another size, other operator types, propagator and fidelity computers, phase options and sides, dump levels, termination conditions), with initialisations, updates, reads and runs anywhere between; unitary, general and symplectic dynamics.",
  "Tests set everything once in the right order and initialise once; they never correct a refused set-up or reuse an object for another system.",
  ["dynamics.py", "fidcomp.py", "optimizer.py", "tslotcomp.py"],
  [("initialisation", "dynamics.py:Dynamics.initialize_controls/_init_evo"), ("operand checks", "dynamics.py:_check_ctrls_container/_check_drift_dyn_gen"), ("Hamiltonian names", "dynamics.py:DynamicsUnitary._map_dyn_gen_to_ham"), ("phases", "dynamics.py:DynamicsSymplectic._get_dyn_gen_phase"), ("measure options", "fidcomp.py:FidCompUnitary._init_phase_option, FidCompTraceDiff.init_comp"), ("run checks", "optimizer.py:Optimizer.init_optim")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
