"""The properties: one place for properties.jsonl, MANIFEST.json and the
table in DESIGN.md (written by gen.py)."""

DP = "reliabilityassessment/data_processing/"
MC = "reliabilityassessment/monte_carlo/"

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms (name, where), technique, note
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note))


p("C01", "The event calendar is chronological and loses or invents no event",
  "Events filed in the simulation's calendar are taken out in order of their times, the latest filed first among"
  " events of equal time, each exactly once and with the kind it was filed with. No history in which every event taken files one"
  " successor, as those of the simulation do, makes the calendar lose, duplicate, reorder or relabel an event, or run"
  " out of room.",
  ["histories", "schedules"],
  "every history of initial filings followed by take/file steps, with all combinations of event times including ties;"
  " every set of periodic processes",
  "The tests file a fixed handful of events; order and conservation must hold for every interleaving of filing and"
  " taking, which only an exhaustive exploration of histories reaches.",
  [MC + "filem.py", MC + "remove.py", MC + "initfl.py", MC + "events.py"],
  [("filem", "filem.py: insertion into the linked list of pending events"), ("remove", "remove.py: takes the next event off"), ("initfl", "initfl.py: empty list")],
  "explicit-state exploration of the real event list, compared with an ordered-list model after every operation",
  "bounded: 1..4 initial events, depth 4 (thorough 5); at most one filing between two removals, as the simulator does")

p("C02", "Every hour (or day) of every year is simulated exactly once, in order",
  "A simulation visits every hour of every simulated year (or the daily peak hours, if the user asked for those) once"
  " and in chronological order, and in each of them asks for that hour's load. It ends at the year the user asked for"
  " (or earlier only by convergence) with exactly one final report over exactly the simulated years.",
  ["configurations", "histories"],
  "every combination of statistics mode, draw mode, season layout, forecast tiers and stopping year, over several"
  " consecutive years",
  "The tests call single routines at one clock value; off-by-one and drift errors at the ends of days, weeks and years"
  " only show over whole multi-year runs in every mode.",
  [MC + "contrl.py", MC + "hour.py", MC + "year.py", MC + "week.py", MC + "initfl.py"],
  [("hour", "hour.py: clock to hour/day"), ("contrl", "contrl.py: event dispatch"), ("year", "year.py: end of year")],
  "exhaustive enumeration of configurations; each run of the real program is replayed against a calendar model",
  "whole runs of 1..9 years; a load that names the hour makes the visited hour observable in the statistics")

p("C03", "Planned outages are in force in exactly their planned weeks, every year",
  "A unit whose planned outage is given as a first week and a number of weeks is unavailable in all hours of those"
  " weeks and in no other hour because of planning, in every simulated year. Two outages of one unit both count, also"
  " when they touch or overlap, and outages of one unit never affect another.",
  ["inputs", "configurations", "histories"],
  "every first week and a set of lengths, pairs of windows, several units, hourly and daily statistics and draws, over"
  " several years",
  "The tests look at one schedule in one week; the property is about every week of every schedule in every year.",
  [MC + "week.py", DP + "smaint.py", DP + "pmsc.py", MC + "hour.py"],
  [("week", "week.py: units put on/off outage at the start of a week"), ("smaint", "smaint.py: lists per week")],
  "exhaustive enumeration of schedules; each run of the real program is replayed against the schedule model",
  "bounded grid of windows, 2-3 years per run")

p("C04", "Units run at the rating of the user's current season",
  "In every simulated hour each unit's capacity is the rating the user gave for the season the hour's week lies in,"
  " where the user's season ends decide the season. This holds from the first hour of the first year on and does not"
  " drift over the years.",
  ["inputs", "configurations", "histories"],
  "every increasing triple of season ends over a set of weeks, hourly and daily mode, several years",
  "The tests use one set of season ends and call the season switch directly; the property is about every hour of the"
  " run for every choice of season ends.",
  [MC + "quartr.py", MC + "contrl.py", MC + "narpMain.py", DP + "datax.py"],
  [("quartr", "quartr.py: switch of ratings"), ("narpMain", "narpMain.py: initial season"), ("contrl", "contrl.py: season events")],
  "exhaustive enumeration of season layouts; runs of the real program replayed against the season model",
  "season ends in weeks 1..51, two years per run")

p("C05", "Random draws give every unit and line state its stated probability",
  "Over all values the random generator can produce, a unit is drawn fully available, derated or out, and a line in"
  " each of its states, with exactly the probabilities the user stated (to the generator's resolution). Each draw uses"
  " the next number of that unit's or line's own stream.",
  ["inputs", "histories"],
  "every one of the generator's 2^24 reachable states, several outage-rate and line-state distributions; every draw of"
  " whole simulated years",
  "The tests draw once from one seed; a probability statement quantifies over all values of the generator.",
  [MC + "gstate.py", MC + "lstate.py", MC + "line_prob_sampling.py"],
  [("gstate", "gstate.py: unit states"), ("lstate", "lstate.py: line states")],
  "exhaustive enumeration of the reachable generator states through the real sampling code, compared with inversion of"
  " the cumulative distribution",
  "exhaustive over the generator; bounded set of distributions")

p("C06", "Runs are reproducible and every unit and line has its own random stream",
  "Running the program twice on the same input gives the same output, whatever was simulated before in the same"
  " process. The random stream of a unit or line depends only on the seed the user gave and on its position in the"
  " list of units and lines; another seed gives other streams, and no two units or lines share a stream.",
  ["histories", "configurations"],
  "every small number of units and lines; all ordered pairs of runs in one process; runs for several seeds",
  "The tests never run the program twice in one process nor compare streams between systems of different size.",
  [MC + "seeder.py", MC + "initl.py", MC + "narpMain.py", MC + "contrl.py"],
  [("seeding", "seeder.py: seeds derived from one base seed")],
  "exhaustive enumeration of system shapes and run orders on the real program; differential comparison",
  "1..59 units, 0..60 lines, 16 base seeds; all ordered pairs of 6 systems; 6 seeds of the user, every draw of a run")

p("C07", "Every unit's available capacity is credited to the right areas",
  "In every simulated hour the capacity available in an area is the sum of the available capacity of the units located"
  " there, and the joint-ownership transfers out of an area are what other areas own of its units minus what it owns"
  " elsewhere. What the areas own adds up to what is available.",
  ["inputs", "configurations"],
  "every pattern of ownership and location over small grids of shares, with derated, planned-out and seasonal units",
  "The tests use one ownership table and one state vector.",
  [MC + "gstate.py", MC + "sumcap.py", MC + "hour.py", DP + "datax.py", DP + "pind.py"],
  [("sumcap", "sumcap.py: capacity per area and transfers"), ("gstate", "gstate.py: unit availability")],
  "exhaustive enumeration of ownership patterns; every hour of the real program replayed against the accounting model",
  "grids of 7 ownership rows x locations of two 3-state units, one year of daily draws; mixed 4-unit systems")

p("C08", "Firm contracts are honoured on exactly their days",
  "On every day of every year the scheduled net export of an area is the sum of the firm contracts in force that day"
  " in which it sells, minus those in which it buys. A contract is in force from its first through its last day and on"
  " no other day, and the order in which contracts are listed does not matter.",
  ["inputs", "histories"],
  "every single contract over all area pairs and day ranges of a grid, every ordered pair/triple of a set, several"
  " years",
  "The tests read one contract file; the property is about every day and every combination of contracts.",
  [MC + "hour.py", DP + "datax.py", DP + "readInputB.py"],
  [("hour", "hour.py: contracts in force"), ("datax", "datax.py: contract table")],
  "exhaustive enumeration of contract sets; every simulated hour replayed against the contract model",
  "up to 12 contracts, or one between every two of 9 areas; 1..2 years")

p("C09", "Surplus and deficit are shared fairly before network limits apply",
  "When the pool is short, areas with a surplus give all of it and the shortage is spread over all areas in proportion"
  " to load if losses are shared, or stays with the deficit areas in proportion to their deficits if not; when the"
  " pool has a surplus the deficits are covered completely. The planned injections always add up to zero and do not"
  " depend on the order of the areas.",
  ["inputs"],
  "every vector of injections over a grid for 1..4 areas in three magnitudes, several load vectors, every node order, both sharing modes",
  "The tests check one vector for each mode.",
  [MC + "assign.py", MC + "net.py", MC + "tm1.py"],
  [("assign", "assign.py: balancing before dispatch")],
  "exhaustive enumeration over a value grid on the real routine against an independent reference",
  "grid-bounded")

p("C10", "Network matrices follow every topology and every line outage",
  "For every network, also one in which areas have no line to the others, every reference area and every set of line states the stored admittance matrix and its inverse are those of"
  " the network with the lines in those states. Updating them for outages gives the same result as building them for"
  " the network without those lines, and restores them exactly when the lines come back.",
  ["inputs", "histories"],
  "all networks up to 4 areas and 5 lines (thorough: 5 areas), connected or with areas without lines, all reference"
  " areas, all combinations of line states that leave the network connected; histories of changing states",
  "The tests use one network and one outage.",
  [MC + x + ".py" for x in ("admitm", "admitb", "admitr", "admref", "ximpa", "ximpar", "tm1")],
  [("matrices", "admitb/admitr/tm1.py: from scratch"), ("updates", "admitm/admref/ximpa/ximpar.py: updates for changed lines")],
  "exhaustive enumeration of small networks and line states on the real routines against linear algebra from scratch",
  "graph-size bounded")

p("C11", "A network dispatch is feasible and curtails as little as possible",
  "For every network state the dispatch respects all line limits and area limits, Kirchhoff's law and the balance of"
  " every area, and only curtails what is short. Its total curtailment is the least that any feasible dispatch could"
  " reach, also when line outages split the network or areas have no line to the others.",
  ["inputs"],
  "every point of grids over topology (also with areas without lines), line states, reference area, injections, line"
  " limits, import and export limits per area, and sharing mode",
  "The tests dispatch one network; optimality and feasibility quantify over all network states.",
  [MC + "tm2.py", MC + "net.py", MC + "linp.py", MC + "conls.py", MC + "flo.py", MC + "theta.py"],
  [("dispatch", "tm2.py: flows, then LP when a limit is violated")],
  "exhaustive enumeration over grids on the real solver; the oracle enumerates every vertex of the dispatch polytope",
  "up to 5 areas and 6 lines, trees of 6 and 7 areas; any optimal dispatch is accepted")

p("C12", "Emergency assistance between areas follows the two-pass rule",
  "A first pass carries the firm exports as far as the network allows; a second pass sends surplus to areas that are"
  " still short, within the line and area limits the first pass left over (all of them if losses are shared), leaving the"
  " least total shortage possible. Unless losses are shared no area ends up short because it helped another, and the answer depends only on the current hour's"
  " margins, transfers and line states, not on earlier hours.",
  ["inputs", "histories"],
  "every point of grids over margins, firm exports, line states, limits, reference area and sharing mode, in long"
  " histories through one shared network state",
  "The tests run the transmission calculation twice; both the rule and its independence of history need exhaustive"
  " sequences.",
  [MC + "transm.py", MC + "tm1.py", MC + "tm2.py", MC + "net.py"],
  [("transm", "transm.py: two passes of network dispatch")],
  "exhaustive enumeration of hours and histories on the real calculation; the oracle enumerates all optimal first-pass"
  " and all second-pass dispatch vertices",
  "up to 4 areas; points where the first pass is ambiguous and unexplained are counted, not judged")

p("C13", "The linear program is solved to optimality",
  "Every linear program with a finite optimum that the dispatch may pose is solved: the returned point satisfies all"
  " rows and sign constraints and no feasible point is cheaper. Degenerate programs terminate.",
  ["inputs", "programs"],
  "every small program over grids of coefficients, row kinds, right-hand sides and costs",
  "The tests solve one program.",
  [MC + "linp.py"],
  [("two-phase simplex", "linp.py")],
  "exhaustive enumeration of small programs on the real solver; the oracle enumerates every basis",
  "2..3 unknowns, 2..3 rows over small integer grids")

p("C14", "Matrix factorisation and inversion are right for every matrix",
  "The product of a factorisation, and of an inverse with its matrix, gives back the matrix and the identity for every"
  " invertible matrix, whatever its zero pattern.",
  ["inputs"],
  "all 0/+-1 matrices to 3x3, permutation-like patterns to 6x6, families of dense and banded matrices to 12x12",
  "The tests factorise one matrix, so pivoting is hardly reached.",
  [MC + "dgeco.py", MC + "dgefa.py", MC + "dgedi.py"],
  [("LU", "dgefa.py: factorisation"), ("inverse", "dgedi.py: inverse")],
  "exhaustive enumeration of small matrices on the real routines",
  "size- and grid-bounded")

p("C15", "A loss of load is recorded exactly when an area cannot be supplied",
  "In every simulated hour and forecast tier an area's loss is recorded exactly when its capacity after firm transfers"
  " falls short of its load and the other areas could not make up for it; if no area is short nothing is recorded, and"
  " if all are short everyone's shortage is recorded. Tiers are visited from the highest load down and stop at the"
  " first without a loss; losses of the pool's daily peak hour are also recorded as peak losses.",
  ["inputs", "histories", "configurations"],
  "every sequence of answers of the network calculation over the tiers of an hour, for load levels on each side of"
  " every decision, hourly and daily-peak runs",
  "The tests run one hour with one outcome; the decision depends on the combination of tier, margins and network"
  " answers.",
  [MC + "hour.py", MC + "transm.py", MC + "pkstat.py", MC + "hrstat.py"],
  [("hour", "hour.py: decision per tier")],
  "exhaustive enumeration of environment answers (the network calculation is the environment) in runs of the real"
  " program, compared with the decision rule",
  "6 answers, every sequence over the first four tiers; 1..3 areas")

p("C16", "Each loss of load is counted once, for the right area and cause",
  "Recording a loss adds one to the count and the size of the shortage to the energy of exactly the areas that are"
  " short and of the pool, in that forecast tier, as generation- or transmission-caused according to whether the pool"
  " as a whole was short. No other counter changes.",
  ["inputs", "histories"],
  "every vector of margins over small alphabets for 1..5 areas, in every tier, in histories of several losses",
  "The tests record one loss from one vector.",
  [MC + "hrstat.py", MC + "pkstat.py"],
  [("hrstat/pkstat", "hourly and peak recorders")],
  "explicit-state exploration of histories of losses on the real recorders against counters",
  "depth 2 over 30 and depth 4 over 10 operations")

p("C17", "Yearly statistics are rolled up exactly, and every year starts from zero",
  "After every history of simulated years the accumulated, weighted and squared statistics, the histograms and the"
  " table of the year just ended are exactly those of the years simulated so far. The statistics of a year start from"
  " zero, for every area, cause and forecast tier.",
  ["histories"],
  "every sequence of annual results over an alphabet, 2..4 years deep, 1..3 areas, 1 and 5 tiers",
  "The tests roll up one year; errors that carry over from one year to the next need histories.",
  [MC + "year.py"],
  [("year", "year.py: annual event")],
  "explicit-state exploration of annual histories through the real annual event, compared with an exact reference after"
  " every year",
  "8 annual results, depth 2..4")

p("C18", "The simulation stops exactly when its stopping rule says so",
  "The simulation ends with the first year in which the statistic the user chose to watch has converged to the"
  " requested tolerance, and no later than the requested number of years. It then prints one final report over the"
  " years simulated. From the fifth year on it tells the user that statistic's sum, new value and mean and how far it is"
  " from converged.",
  ["histories", "configurations"],
  "every history of annual values over an alphabet, every choice of watched statistic, several tolerances and horizons",
  "The tests call the convergence test a few times with fixed values.",
  [MC + "cvchk.py", MC + "year.py", MC + "contrl.py"],
  [("cvchk", "cvchk.py: convergence test"), ("year", "year.py: choice of statistic")],
  "explicit-state exploration of histories of years through the real convergence test, annual event and main loop",
  "4 values ^ 7 years x thresholds; values within round-off of the threshold are not judged")

p("C19", "The final report prints the statistics of the simulated years",
  "Every number in the final report (the table per area, forecast tier and cause, the summary with loads, capacities,"
  " reserve, expectations and standard deviations, and the probability distributions) is the exact statistic of the"
  " simulated years, printed to its precision under the right area's label.",
  ["histories", "configurations"],
  "every history of annual results over an alphabet, 1..3 areas, 1 and 5 tiers, hourly and peak reports",
  "The tests print one report from made-up arrays and do not parse it.",
  [MC + "report.py", MC + "year.py"],
  [("report", "report.py"), ("year", "year.py")],
  "exhaustive enumeration of annual histories; the printed report of the real code is parsed and compared with exact"
  " values",
  "8 annual results, 2..3 years")

p("C20", "A run continued from a snapshot ends like the uninterrupted run",
  "Whatever snapshot a run is abandoned at, loading it and continuing gives the same final report and the same later"
  " snapshots as the run without interruption.",
  ["crash_points", "histories"],
  "every snapshot of every run of several systems, several intervals and horizons",
  "The tests write and read one snapshot of dummy arrays; missing state only shows in the future of a resumed run.",
  [MC + "intm.py", MC + "rstart.py", MC + "year.py", MC + "contrl.py"],
  [("intm", "intm.py: write/read snapshot"), ("year", "year.py: what the snapshot holds")],
  "exhaustive exploration of crash points: the real program is abandoned at every snapshot, resumed and compared",
  "3 systems, horizons of 2..12 years")

p("C21", "The load asked for in every hour is the user's load profile",
  "In every hour and forecast tier the load of an area is its hourly profile scaled to its annual peak, times the"
  " tier's multiplier from the area's forecast uncertainty. The daily peak hour of the pool is the hour of the highest"
  " total load of the day, and the weekly peaks printed for maintenance planning are the highest loads of the week net"
  " of contracts.",
  ["inputs", "configurations"],
  "every pair of peak hours of two areas, every set of tied peak hours, any order of area blocks in the load file up to"
  " 12 areas, several scales and uncertainty vectors",
  "The tests use one load file.",
  [DP + "xldnew.py", DP + "dpeak.py", DP + "plhr.py", DP + "wpeakf.py", MC + "hour.py"],
  [("xldnew", "xldnew.py: load file"), ("dpeak", "dpeak.py: daily peaks"), ("plhr", "plhr.py: pool peak hour")],
  "exhaustive enumeration of peak layouts and file orders; the loads of the real program are compared with the user's"
  " data hour by hour",
  "peak-hour grids 24x24")

p("C22", "The capacity outage table matches the units' outage rates",
  "The table used for maintenance planning gives, for every outage level, the probability that at least that much of"
  " an area's capacity is on outage, for any set of units with full and partial outages in any order.",
  ["inputs"],
  "every sequence of up to 4 (thorough 5) units over 7 kinds, and larger fleets",
  "The tests build one table.",
  [DP + "pmlolp.py", DP + "gsm.py"],
  [("pmlolp", "pmlolp.py: convolution")],
  "exhaustive enumeration of unit sequences on the real convolution against brute-force enumeration of unit states",
  "levels below 1e-9 may be cut off, capacities on the 10 MW grid")

p("C23", "The maintenance scheduler leaves the user's fixed outages alone",
  "Whatever mix of fixed and automatically scheduled units an area has, every unit whose outage weeks the user fixed"
  " is out in exactly those weeks. Units left to the scheduler get outages of the requested lengths inside the area's"
  " allowed weeks and outside its forbidden ones.",
  ["inputs", "configurations"],
  "all sequences of 1..3 units over fixed and automatic plans, several windows, 1 and 3 areas",
  "The tests schedule one unit list.",
  [DP + "pmsc.py", DP + "smaint.py"],
  [("pmsc", "pmsc.py: schedule"), ("smaint", "smaint.py: outage lists")],
  "exhaustive enumeration of unit plans; runs of the real program replayed against the schedule model",
  "automatic scheduling itself is judged on 6 small inputs, all recorded findings")

p("C24", "Names and card order tie every input to the right area, unit and line",
  "Units, lines, contracts and ownership shares are tied to the areas and units the user named, whatever the names"
  " are and in whatever order the areas, units and lines are listed. Permuting the description of a system"
  " permutes its results and changes nothing else.",
  ["inputs", "configurations"],
  "permutations of area names and of the order in which units, lines, contracts and ownership rows are listed",
  "The tests use one input set in which names and positions happen to agree.",
  [DP + "pind.py", DP + "datax.py", DP + "readInputB.py", DP + "input_processing.py", DP + "dataf1.py"],
  [("pind", "pind.py: names to numbers"), ("datax", "datax.py: input tables")],
  "exhaustive enumeration of permutations of a system's description; the loaded state and the runs of the real program"
  " are compared across them",
  "systems of 2..4 areas, permutations up to 4!")

p("C25", "The reserve reported for an area is its capacity at its own peak",
  "The installed capacity used in the summary's reserve is, for every area, what the area owns at the ratings of the"
  " season its annual peak falls in, less the firm contracts it sells and plus those it buys on that day.",
  ["inputs", "configurations"],
  "every day of the year as the peak day, several season layouts, contracts and ownership tables",
  "The tests compute one reserve.",
  [DP + "resca.py", DP + "datax.py", MC + "report.py"],
  [("resca", "resca.py: capacity at peak")],
  "exhaustive enumeration of peak days and season layouts on the real program against the user's data",
  "grid-bounded")

p("C26", "The drawn line states decide the limits and admittances in use",
  "In every simulated hour each line has the admittance and the forward and backward capacity of the state drawn for"
  " it, for any assignment of states to lines. Nothing of an earlier hour's states remains.",
  ["inputs", "histories"],
  "every assignment of states to up to 3 lines in every order of two consecutive hours, for tables with weak, strong, equal and asymmetric states; whole years of draws",
  "The tests set one state of one line.",
  [MC + "transm.py", MC + "tm1.py", MC + "lstate.py", DP + "dataf1.py"],
  [("transm", "transm.py: limits from states")],
  "exhaustive enumeration of line-state histories; what the real network dispatch is given is compared with the user's"
  " line table",
  "up to 3 lines with 6 states; unit-dependent deratings are a recorded finding")

p("C27", "The printed indices are those of an independent simulation of the system",
  "For every small system the reliability indices printed at the end are those that follow from the user's data, the"
  " random streams and the emergency-assistance rule, year by year. This holds for all combinations of the input"
  " options at once.",
  ["inputs", "configurations"],
  "all combinations over a grid of small systems: uncertainty, derated units, maintenance, seasons, contracts, joint"
  " ownership, line states, networks without all lines, sharing, draws every 1 to 24 hours, hourly and daily statistics",
  "The tests have one integration case with no expected values for the indices.",
  [MC + "narpMain.py", MC + "contrl.py", MC + "hour.py", MC + "transm.py", MC + "year.py", MC + "report.py"],
  [("whole program", "narpMain.py")],
  "exhaustive enumeration of configurations; every run of the real program is replayed hour by hour in an independent"
  " reference simulator and all printed numbers are compared",
  "1..2 areas (3 in the thorough tier), 2..3 years")

p("C28", "A crash while a snapshot is written never costs the last good one",
  "If the program is killed at any moment while it writes a snapshot, a later start can read back either the complete"
  " previous snapshot or the complete new one.",
  ["crash_points", "fault_sequences"],
  "a kill after every single byte that reaches a file and at every file operation, during the first and a later"
  " snapshot",
  "The tests never interrupt the writer.",
  [MC + "intm.py"],
  [("intm", "intm.py: snapshot written beside and renamed")],
  "exhaustive enumeration of crash points of the real writer in forked children; recovery with the real reader",
  "process crashes only")

p("C29", "What the user asks to be printed or stored does not change what is computed",
  "The final results do not depend on the printing and storing options, annual reports appear for every year"
  " if asked for and never otherwise, and the snapshot stays behind exactly if it is to be retained. The transmission trace, if asked for, holds one record per"
  " optimised dispatch, in order, with the flows and injections the simulation went on with.",
  ["configurations", "histories"],
  "all combinations of trace, annual reports, snapshot interval, input and schedule printing over systems with outages,"
  " maintenance, contracts and shortages, daily and hourly",
  "The tests never run the program with the trace on and compare no two runs.",
  [MC + "tm2.py", MC + "year.py", MC + "narpMain.py", MC + "contrl.py"],
  [("trace", "tm2.py: if IOI != 0"), ("annual reports", "year.py: report called per year")],
  "exhaustive enumeration of option combinations; each run of the real program compared with the plain one, the trace"
  " compared record by record with the calls of the real dispatch",
  "1..3 areas, 1..3 years")

p("C30", "The form in which the input is written does not matter",
  "Rows of a data card count in the order of their serial numbers wherever they stand in the file, columns count by"
  " their names, and titles and line numbers can be chosen freely. Firm contracts, joint ownership and line deratings"
  " are optional: leaving out their file means the same as giving none.",
  ["inputs", "configurations"],
  "every order of the rows of every card, every rotation of its columns, sequences of titles, line numbers and serial"
  " numbers with gaps, line ends, and every subset of the optional files left out",
  "The tests read one set of files in which rows, serial numbers and line numbers are all 1..n and every file exists.",
  [DP + "readInputB.py", DP + "pind.py", DP + "datax.py", DP + "dataf1.py"],
  [("reader", "readInputB.py: one reader per card"), ("datax", "datax.py: tables by position")],
  "exhaustive enumeration of the forms of one description; the real program is run on each and everything the network"
  " calculation is asked and answers, the recorded losses and the report are compared with the plain form",
  "one system of 3 areas, 5 units, 3 lines, one year of daily peaks per form")
