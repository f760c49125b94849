"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, state, mech, observe, technique, note, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=x, where=files[0]) for x in state], mechanism=[dict(name=x, where=files[0]) for x in mech], observe_at=observe, hook_needed="none"),
                  _t=technique, _n=note, _l=level))


L = "src/logic/"
M = "src/models/components/"

prop("C01", "A successful power flow satisfies the network's physics",
     "Whenever a power flow is reported successful, the reported voltages and source currents satisfy Kirchhoff's current law at every bus and every component's own equation, within the tolerance that was asked for, for the network as the user described it. Every bus, source and load is reported once, at its solved voltage and power, and the reported residual is the true mismatch.",
     ["inputs", "configurations"], "all networks (positive sequence and three phase) and all solver settings, including runs that fail",
     "Tests compare a few fixed feeders with stored results at one setting; they cannot range over networks, settings and non-converging runs.",
     [L + "powerflow.py", L + "nrsolver.py", L + "powerflowresults.py", L + "stamping/matrixstamper.py"], ["solution vector", "device positions at the end"],
     ["Newton loop accepts a point", "results are read from the point"], ["PowerFlow.execute() results"],
     "TLA+ physics specification (Net/NetCase) judged by TLC on recorded runs", "random networks and settings, every reported number re-derived in 50-digit arithmetic by TLC")

prop("C02", "Solvable networks are solved, to the right solution",
     "A network that has an operating point close to its starting point is solved successfully within the iteration limit, and the voltages reported are those of that operating point. Optional features (stepping, limiting, debugging) do not change the answer.",
     ["inputs", "configurations"], "networks with a known, well-conditioned solution reached quickly by an exact Newton method from the same start",
     "Tests fix a handful of feeders; whether any solvable network is solved is a statement about all of them.",
     [L + "nrsolver.py", L + "homotopycontroller.py", L + "network/networkmodel.py", L + "stamping/matrixstamper.py"], ["start vector", "solution vector"],
     ["initial point", "Newton iteration", "continuation"], ["PowerFlow.execute() results"],
     "TLA+ physics specification; known solutions certified and compared by TLC", "known solutions are produced by an independent solver, re-certified against the specification, then compared with the code's")

prop("C03", "Components draw the currents their data define",
     "At any voltages and any stage of the continuation, every component (line, transformer, centre-tap transformer, regulator, load, generator, slack, source, shunt, capacitor, switch, fuse, coupled multi-phase line) contributes to each bus exactly the current that its nameplate data and circuit law define, and imposes exactly its own equations. At the end of the continuation these are the laws of the network as given; on the way series paths get only stiffer, shunts only weaker, and transformer ratios and shifts move towards none.",
     ["inputs", "configurations"], "all component data, operating points and continuation factors",
     "Tests look at end results of converged feeders, where an error in one term can hide; the law must hold at every operating point.",
     [M + "line.py", M + "transformer.py", M + "center_tap_transformer.py", M + "load.py", M + "generator.py", M + "unbalanced_line.py", M + "regulator.py"],
     ["component data", "unknowns"], ["residual evaluation"], ["residuals of the assembled network"],
     "TLA+ component laws (Net.Draw/Own) judged by TLC on recorded residuals", "")

prop("C04", "Newton steps use the exact linearisation of the physics",
     "The linear system assembled for a Newton step at any point equals the first-order expansion of the network's equations at that point: the matrix is the Jacobian and the right-hand side is such that an exact solution is a fixed point.",
     ["inputs", "configurations"], "all networks, operating points and continuation factors",
     "A wrong derivative entry usually still converges, only slower, so result comparisons do not show it.",
     [L + "stamping/matrixstamper.py", L + "stamping/lagrangesegment.py", L + "stamping/matrixbuilder.py"], ["matrix", "right-hand side"], ["symbolic differentiation", "stamping"],
     ["assembled matrix and right-hand side"], "TLA+ physics specification; Jacobian rows compared by TLC", "Jacobian by central differences in 50-digit arithmetic")

prop("C05", "What is assembled depends only on what is held now",
     "The matrix, right-hand side and residuals assembled for a point depend only on the network and that point, never on what was assembled or evaluated before: entries added since the last clear (plus those retained) are exactly what is summed, in every view of the matrix.",
     ["histories"], "all sequences of adding, clearing with or without retaining, and reading; all sequences of evaluations of one network at changing points",
     "Tests assemble once and read once; stale entries only show after particular reuse histories.",
     [L + "stamping/matrixbuilder.py", L + "stamping/matrixstamper.py"], ["entry buffers and fill index", "cached stamp values"], ["stamp", "clear", "reads"], ["matrix views", "residuals"],
     "TLA+ refinement (BuilderImpl refines Builder) model-checked by TLC; operation histories trace-checked", "")

prop("C06", "Newton accepts exactly the converged points",
     "The iteration linearises at its previous point, accepts a proposal if and only if its true residual is within tolerance, and otherwise continues up to the iteration limit; it may give up earlier only when residuals have trended upwards over a whole window. The starting point the caller supplied is left untouched.",
     ["histories", "configurations"], "all sequences of residuals, iteration limits, tolerances and limiter settings",
     "Tests see converging runs; which iterate is accepted, returned or given up on depends on the whole residual history.",
     [L + "nrsolver.py"], ["iteration counter", "previous point", "residual history"], ["propose", "evaluate", "accept or continue"], ["calls to the stamper and limiter", "returned outcome"],
     "TLA+ protocol (Newton) model-checked by TLC; scripted executions trace-checked", "")

prop("C07", "Continuation claims success only for the real network",
     "The network is first solved as given; if that fails and stepping is enabled it is solved from the original start fully relaxed, then ever less relaxed, each solve starting at the previous solution, and the first failure ends the attempt. Success is reported only when the un-relaxed network was solved, and the point, relaxation and residuals reported are those of the last solve on the network as given.",
     ["histories", "fault_sequences"], "all patterns of solves failing and succeeding along the path",
     "Tests rarely need stepping at all; failures in the middle of the path are never provoked.",
     [L + "homotopycontroller.py"], ["relaxation factor", "warm start"], ["direct solve", "stepping"], ["solver calls", "returned outcome"],
     "TLA+ protocol (Homotopy) model-checked by TLC; scripted and real executions trace-checked", "")

prop("C08", "Solutions are returned only with devices settled at them",
     "With device control on, a solution is returned only if no switched capacitor or fuse would respond to it, and it was computed with every device in the position it is left in; otherwise the devices respond and the network is solved again from the same start. At most ten solves are made, after which the run is refused with an error; a failed solve is returned at once, and without device control no device moves.",
     ["histories", "configurations"], "all networks with devices and all sequences of solver outcomes",
     "Whether the loop settles, oscillates or runs out depends on the solution history; tests have at most one adjustment.",
     [L + "devicecontroller.py", L + "powerflow.py"], ["device positions", "number of solves"], ["solve", "respond", "return"], ["solver calls", "device positions", "returned outcome"],
     "TLA+ protocol (DeviceLoop) model-checked by TLC; scripted and real executions trace-checked", "")

prop("C09", "Capacitor control supports the voltage",
     "A voltage-controlled capacitor is connected when the voltage at it is below its low set point, disconnected when it is above its high set point, and otherwise left alone; a manual one never moves, and unsupported control modes are refused. A change is reported exactly when there is one, and only a connected capacitor contributes to the network.",
     ["inputs", "histories"], "all voltages, set points, modes and prior positions",
     "Tests use one feeder whose capacitors rarely switch.",
     [M + "capacitor.py"], ["switch position"], ["response to a voltage"], ["switch position", "reported change", "contribution to residuals"],
     "TLA+ device rules (Devices) model-checked by TLC; responses judged by TLC", "the unchanged tree responds in the opposite direction: four known findings, one per corner")

prop("C10", "Fuses blow above their limit and stay blown",
     "With device control on, a fuse blows exactly when the magnitude of its current exceeds its limit, stays blown whatever follows, reports the change exactly once, and from then on connects nothing. No successful result is ever reported in which a fuse carries more than its limit or a blown fuse carries current.",
     ["histories", "inputs"], "all sequences of currents and all feeders with fuses",
     "Test feeders have fuses that never blow.",
     [M + "fuse.py", L + "devicecontroller.py"], ["fuse status"], ["response to a current"], ["fuse status", "connections", "results"],
     "TLA+ device rules (Devices) model-checked by TLC; histories trace-checked, runs judged", "")

prop("C11", "Tap changers stay in range and set the ratio exactly",
     "A regulator's tap moves by the requested increments clamped to its range, reports a change exactly when the position changed, and the network always sees exactly the ratio that the position, step and type define. A position outside the range is brought into it at construction.",
     ["histories", "inputs"], "all tap ranges, types, steps and increment sequences",
     "Test feeders have fixed taps.",
     [M + "regulator.py"], ["tap position", "turn ratio"], ["increment"], ["tap position", "ratio in the assembled equations"],
     "TLA+ device rules (Devices) model-checked by TLC; histories trace-checked", "")

prop("C12", "Split networks are refused",
     "Two nodes belong to the same island exactly when a chain of current-carrying elements (closed switches, intact fuses, lines, transformers, regulators, sources, capacitors) joins them without passing through ground; loads do not join nodes. The islands reported are exactly these, and a power flow on a network with more than one is refused before solving.",
     ["inputs", "configurations"], "all topologies and switch/fuse positions",
     "Tests have one split feeder.",
     [L + "graphanalyzer.py", L + "powerflow.py"], ["connectivity graph"], ["connected components"], ["islands", "refusal"],
     "TLA+ connectivity (Graph) model-checked by TLC; recorded partitions judged", "")

prop("C13", "Inconsistent nominal voltages are refused",
     "Within every part of the network not separated by a transformer, centre tap or regulator, nominal voltages must agree; a network in which they differ by much more than the allowed 10 V is refused before solving, wherever the offending element is and in whatever order elements were added. Networks whose nominal voltages agree are never refused for this.",
     ["inputs"], "all topologies and nominal voltages (spreads of at most 9 V or above 21 V)",
     "Tests have no inconsistent feeder.",
     [L + "graphanalyzer.py"], ["voltage regions"], ["region computation"], ["refusal"],
     "TLA+ connectivity (Graph) model-checked by TLC; recorded verdicts judged", "")


prop("C14", "A time series solves every hour once, with that hour's loads",
     "A quasi time series from start to end solves each hour of the half-open range exactly once, in order. For every hour each load that the load file names takes the file's magnitude of that hour at the power factor it has in the original network, whatever earlier hours or adjustments left behind; loads the file does not name and everything else stay as they are. The result kept for an hour is that of its last solve, and is the one a separate power flow of that hour would give.",
     ["inputs", "histories"], "all load files, hour ranges, networks and outcomes of the solves of earlier hours",
     "Tests run one short range on one feeder; drift from one hour into the next only shows in particular histories.",
     [L + "network/timeseriesprocessor.py", L + "network/timeseriessettings.py", M + "load.py"], ["loads now", "original power factors", "hour"],
     ["hour loop", "load modification"], ["loads at every solve", "results per hour"],
     "TLA+ protocol (TimeSeries) model-checked by TLC; recorded runs trace-checked", "")

prop("C15", "Generation is adjusted until the swing bus is idle",
     "With an artificial swing bus, an hour's power flow is repeated as long as it succeeds and the swing bus still exchanges power; before each repetition the negative load of each phase takes over exactly the power that the swing bus supplied on that phase. A failed power flow is never repeated and becomes the hour's result; without adjustment every hour is solved once.",
     ["histories", "inputs"], "all sequences of exchanged powers and failures, all placements of negative loads",
     "Tests cover one converging case; when the loop goes on, stops or gives up depends on the sequence of outcomes.",
     [L + "network/timeseriesprocessor.py"], ["negative loads", "swing bus exchange"], ["adjustment loop"], ["loads at every solve", "number of solves", "results per hour"],
     "TLA+ protocol (TimeSeries) model-checked by TLC; recorded runs trace-checked", "")

prop("C16", "Selecting an island keeps it whole and nothing else",
     "Selecting the island of a node keeps exactly the buses and elements of that island (all loads, lines, transformers and other devices whose terminals lie in it, with the buses internal to them), each once and unchanged, and nothing from outside, so that the remaining network is never refused as split. Without a selection nothing is removed.",
     ["inputs"], "all topologies, switch positions and selected nodes",
     "Tests select one island of one file.",
     [L + "network/timeseriesprocessor.py", L + "graphanalyzer.py"], ["buses and elements held"], ["island filter"], ["network after selection"],
     "TLA+ connectivity (Island over Graph) model-checked by TLC; recorded selections judged", "")

prop("C17", "Violated equipment ratings are reported exactly",
     "A solved time series snapshot is marked as violating equipment ratings exactly when the series current of some line phase exceeds its ampacity, the power of some transformer exceeds its rating, or the voltage of some bus is 5% or more off nominal; the mark appears in the written files exactly then, and a failed snapshot is never marked.",
     ["inputs"], "all networks, ratings and operating points (quantities within 1e-7 of a limit excepted)",
     "Tests assert no rating at all on most feeders; a missing term is visible only for particular phases and loadings.",
     [L + "network/timeseriesprocessor.py", L + "powerflowresults.py"], ["operating point", "ratings"], ["rating evaluation"], ["mark on the snapshot", "files"],
     "TLA+ physics specification (RatingCase over Net) judged by TLC", "each limit placed just above or below the quantity it rates")

prop("C18", "Result files and display state exactly the result",
     "Writing a result under a name creates, or replaces entirely, exactly two files that state that result: every reported bus once with its number, name, phase, voltage magnitude and angle; every source and every load once with its power, rounded to the printed decimals. A failed result's files say only that it failed. Writing under no name writes nothing; a time series writes each hour under its own name; no other file is touched. The display states the same numbers.",
     ["histories", "inputs"], "all results and all sequences of writes",
     "Tests read one file of one run; leftovers of an earlier, longer file and rounding or sign slips need particular histories and values.",
     [L + "powerflowresults.py"], ["files"], ["write", "display"], ["files", "screen"],
     "TLA+ protocol (Report) model-checked by TLC; recorded write histories trace-checked", "")

prop("C19", "A transmission case file is imported with the meaning of its records",
     "Importing a RAW file of any supported revision gives a network in which every in-service record of the file draws exactly the currents that record defines (loads with their three parts, fixed and switched shunts, lines with charging and line shunts, two- and three-winding transformers under every unit code, generators) on the file's own system base, every regulated bus has its set point, every bus its starting voltage; records out of service or at isolated buses contribute nothing, and nothing else is added.",
     ["inputs"], "all RAW files of revisions 30 to 34 built from the supported record types, with all unit codes, statuses, comments and blank default fields",
     "Tests import a handful of files in which most codes, statuses and fields have their usual values.",
     [L + "network/parsers/raw/parser.py", L + "network/parsers/raw/data_classes.py", M + "shunt.py", M + "transformer.py", M + "generator.py"],
     ["records read", "components built"], ["RAW import"], ["residuals of the imported network", "initial voltages"],
     "TLA+ meaning of RAW records (Raw) model-checked by TLC; imported networks judged (RawCase)", "residuals of the imported network at random points compared with the file's meaning in 50-digit arithmetic")

prop("C20", "A feeder model file is imported with the meaning of its objects",
     "Importing a GLM file gives a network in which every phase of every node sees exactly the currents that the file's objects define, from the numbers, units and notations as written: overhead, underground and triplex lines by their conductors' geometry or their matrices, with their charging, transformers of every connection, centre taps, regulators at their taps, fuses and switches phase by phase, loads of constant power, current and impedance between phases or to ground, capacitors by their control; sources hold their voltage; children stand for their parents; and the order of objects, phases and properties, line breaks, comments, quotes, nested and ignored objects and included files make no difference. Ratings, limits and control settings are those of the file.",
     ["inputs"], "all GLM files built from the supported object types and properties, in any order and layout, with any supported units and number notations",
     "Tests import some feeders in one layout, one set of units and one order, mostly comparing end results within percents.",
     ["src/ditto/readers/gridlabd/read.py", "src/ditto/readers/gridlabd/line_impedance.py", "src/ditto/readers/gridlabd/load_parser.py", "src/ditto/readers/gridlabd/helpers.py", L + "network/parsers/threephase/threephaseparser.py", L + "network/parsers/threephase/transformerparser.py"],
     ["objects read", "components built"], ["GLM import"], ["residuals of the imported network", "ratings and control data"],
     "TLA+ meaning of GLM files (Glm) model-checked by TLC; imported networks judged (GlmCase)", "ZIP loads (base_power), delta capacitors, tape-shielded cables and separate centre-tap impedances are outside the specification; what the schema does not list is an error and not judged")

prop("C21", "Derived equations are right whatever is in the cache",
     "The derivatives and linearised terms used for a component's equations are those of its own Lagrangian, with exactly the terms that do not depend on the unknowns treated as constant, whatever earlier or concurrent processes left in the on-disk derivative cache: entries of similar segments, entries cut short by a stopped writer, damaged or removed entries, or an unusable cache place. Asking for them never fails for such reasons.",
     ["inputs", "crash_points", "schedules", "histories"], "all segments, all conditions of the cache directory, writers stopped anywhere, several processes at once",
     "Tests derive a few fixed segments with a private, healthy cache.",
     [L + "stamping/lagrangesegment.py", L + "stamping/lagrangepickler.py", L + "stamping/lagrangestampdetails.py"], ["entries on disk"], ["derivation", "caching"], ["derivatives at points", "entries"],
     "TLA+ protocol (Cache) with crashes and damage model-checked by TLC; derivations of the code judged against symbolic derivatives in TLA+ (Poly, CacheCase)", "entries whose bytes were altered inside without shortening are outside the model (nothing in the file format reveals them)")

prop("C22", "The command line solves the case it was given, as asked",
     "Run with a case and options, the command line solves that case with every load's constant power multiplied by the load factor (1 when none is given) and nothing else changed. The case is a file or an http address; of the latter, what is there at the time of the run is solved. Without a load file it runs exactly one power flow, with stepping, debugging and infeasibility analysis exactly when asked, shows its result and, given an output name, writes it. With a load file it runs the hours asked for as a time series; with an artificial swing bus it adjusts generation; with a selected island it solves that island only. Missing, unknown and (unasked) split cases are refused: an error exit, nothing solved and nothing written.",
     ["inputs", "configurations"], "all combinations of case, load factor, load file, hours, output name, swing bus, island and flags",
     "Tests call the command line with one or two flags each; what a flag does in combination with the others is a statement about all of them.",
     ["src/run_solver.py", L + "network/networkloader.py", L + "powerflow.py", L + "powerflowsettings.py", L + "network/timeseriesprocessor.py"], ["options", "network", "files"],
     ["argument handling", "runner"], ["exit status, solves, output files"],
     "TLA+ protocol (Cli) model-checked by TLC; recorded runs of the command line trace-checked (Trace_Cli)", "exceptions inside a time series (which fall back to a plain power flow), RAW cases with load files and non-positive load factors with load files are not judged")

prop("C23", "Voltage limiting bounds each iteration and nothing else",
     "With voltage limiting asked for, on a positive-sequence network, from one iterate to the next one Newton continues from, no real or imaginary part of a bus voltage moves by more than 1 per unit or leaves the range from -2 to 2, a movement within these bounds is taken unaltered, and all other unknowns are those of the solved system; this follows the buses wherever their unknowns are placed. Without it, or on three-phase networks, iterates are those of the solved system.",
     ["inputs", "configurations", "histories"], "all networks, settings and iterates",
     "Tests check a limiter on no iterates at all; only particular jumps reach a bound.",
     [L + "v_limiting.py", L + "nrsolver.py", L + "powerflow.py"], ["previous iterate", "proposed iterate"], ["limit the step"], ["iterates"],
     "TLA+ rule (Limit) model-checked by TLC; recorded iterates judged by TLC (LimitCase)", "")

prop("C24", "Infeasibility analysis finds the least extra currents",
     "A successful power flow with L2 infeasibility analysis is an operating point of the network in which an extra current is drawn at every bus, and those currents are stationary for the least sum of squares subject to the physics; a solvable network is solved at its operating point with no extra current; every bus's extra power, their totals, and the list of buses that need extra power state exactly those currents.",
     ["inputs"], "all solvable and overloaded networks",
     "Tests look at a handful of networks with one overloaded bus and rounded totals.",
     ["src/models/optimization/L2infeasibility.py", L + "powerflowresults.py", L + "powerflow.py", L + "stamping/lagrangestampdetails.py"], ["extra currents", "multipliers"], ["execute"], ["solution vector", "results"],
     "TLA+ optimality conditions over the specified physics (InfCase over Net); outcomes of the real solver judged by TLC", "the multipliers of the components' own equations are supplied as a witness and checked")

prop("C25", "A power flow depends only on the network as it is now",
     "Whatever was done before with a network, its components and the solver (other power flows, load, generation, switch, capacitor, tap and element changes, infeasibility runs, other networks in between), a power flow gives the iterates and the results a newly built network of the same data gives: every unknown has its own place in the system, and the starting point is the bus voltages given, or the flat one.",
     ["histories", "configurations"], "all histories of changes and power flows on a network",
     "Tests build a network, solve it once and throw it away.",
     [L + "powerflow.py", L + "homotopycontroller.py", L + "stamping/lagrangestampdetails.py", L + "network/networkmodel.py", M + "bus.py"], ["node indices", "stored inputs", "component state"],
     ["index assignment", "execute"], ["iterates and results of a re-used network against a new one"],
     "TLA+ history specification (Rerun) model-checked by TLC; histories replayed on the code and judged by TLC (RerunCase)", "")

prop("C26", "Diagnostics describe the system that was solved",
     "With matrix dumping on, after a Newton solve the dump directory holds the matrix and right-hand side of the linear system of each of its iterations (every entry at its place, to the digits written, and nothing left from earlier solves), the point returned, and the table naming every bus voltage, source current and transformer unknown at its place in the vector; without it nothing is written, and it changes no result. Residuals of a result are the totals of the components' contributions, the largest and its place are told truly there and in the line printed per iteration, and the overview printed of a network counts its nodes, phases, lines and loads.",
     ["inputs", "configurations", "histories"], "all systems, networks and sequences of solves",
     "No test looks at a dump, a progress line or the overview.",
     [L + "nrsolver.py", L + "residualdetails.py", L + "network/networkmodel.py"], ["dump directory", "lookup table"], ["dump", "progress line", "overview"], ["files", "printed lines", "residual details"],
     "TLA+ specification of the dump directory over solves (Dump) model-checked by TLC; scripted solves validated as traces (Trace_Dump), real networks judged by TLC (DiagCase)", "")


def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = dict(version=1, setup_cmd="bin/setup",
               checks=[dict(property=p["id"], quick_cmd=f"bin/check {p['id']} quick", thorough_cmd=f"bin/check {p['id']} thorough",
                            evidence_file=f"evidence/{p['id']}.json", technique=p["_t"], level=p["_l"],
                            level_note=p["_n"] or "design model-checked exhaustively at small scope; the code bound by traces/cases judged by TLC")
                       for p in P],
               not_applicable=NA,
               notes="All checks: explicit TLA+ specifications in spec/, checked with TLC; see DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


NA = []
if __name__ == "__main__":
    write()
