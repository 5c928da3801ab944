HOOKS = dict(guard="SLIDE_VERIF", enable="checks compile /repo/src with -DSLIDE_VERIF (and -DSLIDE_VERIF_<NAME>=<value> to select compile-time settings)", source_commits=["0a51be50fc2f50f2f6bc4a8a9845a412598688f1"])
NA = {}
CELLS = "src/cells/Cell_ECM/Cell_ECM.hpp src/cells/Cell_SPM/Cell_SPM.cpp src/cells/Cell_SPM/Cell_SPM_dstate.cpp src/cells/Cell.hpp"

# ---- cells -------------------------------------------------------------------------------------
P("C01", "State of charge is the exact integral of the current that flowed",
  "For every cell type, capacity and current schedule, the state of charge equals its starting value minus the charge drawn (discharge positive) divided by the nominal capacity. Nothing but the passage of time under current moves it, and the current stays what was set until it is set again.",
  "histories inputs configurations", "all cell models, capacities, starting charges, currents, step lengths and step groupings",
  "Tests charge one default cell at a few currents and compare loosely; they cannot sample every schedule and capacity.",
  CELLS, [("Coulomb counting in the time step", "Cell_ECM::timeStep_CC, Cell_SPM::timeStep_CC")], ["SOC(), I() after every call"])
P("C02", "Lithium moved between electrodes matches the charge, and gradients relax",
  "In the electrochemical cell, lithium leaving one electrode equals the charge passed and lithium arriving in the other equals it up to the lithium recorded as lost to ageing. At rest concentration profiles flatten to uniform without changing the inventory, and under a small steady current the surface settles at the analytic offset from the mean for the diffusion coefficient at that temperature.",
  "histories inputs", "all current schedules, temperatures, starting charges and lithium-consuming ageing models",
  "Tests check voltage direction only; none compares concentrations with charge or with the analytic diffusion solution.",
  "src/cells/Cell_SPM/Cell_SPM_dstate.cpp src/cells/Cell_SPM/Cell_SPM_diffusion.cpp src/cells/Cell_SPM/Model_SPM.hpp src/cells/Cell_SPM/Cell_SPM.cpp", [("spectral diffusion", "Cell_SPM::dState_diffusion, Model_SPM"), ("surface and profile recovery", "Cell_SPM::getCSurf, getC, setC")], ["getC, getCSurf, LLI on relaxed copies"])
P("C03", "Time, charge and energy throughput counters are exact and never decrease",
  "Each cell's elapsed time, charge throughput (absolute value of current) and energy throughput equal the sums over every time step taken, with energy between the bounds given by the voltages at the ends of the step. They start at zero, move only when time passes and never decrease.",
  "histories inputs configurations", "all cell models, schedules and step groupings, ageing on or off",
  "Tests read the counters after a handful of runs of one cell.",
  CELLS + " src/types/data_storage/CellDataStorage.hpp", [("throughput states", "State time/Ah/Wh, getThroughputs")], ["getThroughputs()"])
P("C04", "Grouping time steps changes nothing; zero and negative steps do nothing",
  "Taking n steps in one call or in any partition of calls gives the same cell, refining the step converges to first order, a zero-length or zero-count step leaves the cell unchanged, and a negative step is refused without effect.",
  "histories inputs", "all partitions of a schedule, all cell models",
  "Tests never compare two groupings of the same schedule.",
  CELLS, [("multi-step loop", "timeStep_CC(dt, nstep)")], ["full state vector after each grouping"])
P("C05", "Reported voltage always reflects the present state; queries change nothing",
  "After any sequence of state, current, temperature, charge, parameter (OCV curves, concentrations, geometry, characterisation) or time-step operations the voltage, open-circuit voltage and aggregate quantities a cell or module reports equal those of a fresh object given the same parameters and saved state. Asking for any quantity, in any order or number, never changes the state or later results.",
  "histories", "all operation sequences on every cell and module type, with and without interleaved queries",
  "Voltages are cached; tests read each once after a fixed sequence and cannot cover every interleaving of invalidating operations.",
  "src/cells/Cell_SPM/Cell_SPM.cpp src/cells/Cell_SPM/Cell_SPM.hpp src/cells/Cell_SPM/Cell_SPM_dstate.cpp src/cells/Cell_SPM/Cell_SPM_fitting.cpp src/modules/Module_s.cpp src/modules/Module_p.cpp src/modules/Module.cpp", [("voltage caches", "Vcell_valid, Vmodule_valid")], ["V, getOCV, getRtot, Cap, SOC against a rebuilt twin"])
P("C06", "Cell voltage follows the documented model equations",
  "A bucket or equivalent-circuit cell reports its tabulated open-circuit voltage minus the drops over its series resistance and RC branches, whose currents relax exponentially with the given time constants. The electrochemical cell reports cathode minus anode open-circuit potential at the surface concentrations (with entropic shift), minus both Butler-Volmer overpotentials and the resistive drop, with the parameters it was last given (electrode sizes, maximum concentrations, rate and diffusion constants); at rest and equilibrium every cell's voltage is its open-circuit voltage.",
  "inputs histories configurations", "all states, currents, temperatures and cell parameters",
  "Tests compare a few voltages with hand-picked tolerances at one temperature.",
  CELLS + " src/types/OCVcurves.hpp src/utility/interpolation.hpp src/cells/Cell_SPM/Cell_SPM_diffusion.cpp src/cells/Cell_SPM/Cell_SPM_fitting.cpp", [("voltage evaluation", "Cell_ECM::V, Cell_SPM::V/getOCV/getRdc")], ["V, getOCV, getRtot compared with harness/refspm.hpp and closed forms"])
P("C07", "Saving and restoring a state is exact and continuation is deterministic",
  "Restoring a saved state into the same object or a copy reproduces every reported quantity bit for bit and consumes exactly the values that were saved, for every cell, module and battery. Two objects given the same state and the same subsequent operations stay identical.",
  "histories configurations", "all states reachable by any history, all cell types and module compositions",
  "Tests restore one default state; they cannot cover every reachable state and nesting.",
  "src/StorageUnit.hpp src/cells/Cell_SPM/Cell_SPM.cpp src/cells/Cell_ECM/Cell_ECM.hpp src/modules/Module.cpp src/system/Battery.cpp src/types/State.hpp", [("state serialisation", "getStates / setStates")], ["getStates vectors"])
P("C08", "A rejected operation leaves the whole object exactly as it was",
  "When setting a current, voltage, state or charge is refused because a limit would be broken, the cell, or every cell in the module or battery, keeps exactly the state it had before the call. An operation reported as successful has been applied and has not left a cell beyond a safety limit that its current drives it further past. In parallel modules, where currents are found iteratively, unchanged means within the balancing tolerance.",
  "fault_sequences inputs configurations", "all refused requests on every cell and nesting of series/parallel modules, with the offending cell at any position",
  "Tests check rejection on homogeneous two-cell modules; partial application shows only when a particular cell fails.",
  "src/cells/Cell_SPM/Cell_SPM.cpp src/cells/Cell_ECM/Cell_ECM.hpp src/modules/Module_s.cpp src/modules/Module_p.cpp src/modules/Module.cpp", [("rollback on bad status", "setCurrent/setStates/setVoltage restore paths")], ["full state vectors of every cell before and after"])
P("C09", "Voltage and limit status classification is correct at every boundary",
  "The reported status separates voltages inside the operating window, outside it, and beyond the safety limits exactly at the configured limits (the operating window widened by the documented 0.01 V tolerance), counting a limit only when the current drives the cell towards it. The good/warning/bad predicates partition all statuses, and every status has a message of its own. A voltage that cannot be computed is never reported as a success.",
  "inputs configurations", "all voltages, current directions and limit settings, including exact boundary values",
  "Tests probe interior values only.",
  "src/types/Status.hpp src/utility/free_functions.hpp src/StorageUnit.hpp src/cells/Cell.hpp", [("classification", "free::check_voltage, free::check_current, Status predicates")], ["returned Status values"])
P("C10", "Ageing is one-directional, switchable, and keeps geometry consistent",
  "With ageing models enabled, lost lithium and surface-film and plated thickness never decrease and active material fractions, electrode areas and diffusion coefficients never increase (pore clogging by the main reaction excepted, which follows the current's sign); with a model disabled or ageing blocked its quantities do not change at all. Area per volume stays consistent with the active fraction and particle radius unless a film-cracking or material-loss model that says otherwise is on.",
  "histories configurations", "all combinations of ageing models, schedules, temperatures",
  "Tests run few combinations for short times and check no sign or isolation between models.",
  "src/cells/Cell_SPM/Cell_SPM_degradation.cpp src/cells/Cell_SPM/Cell_SPM_dstate.cpp src/cells/Cell_SPM/State_SPM.hpp", [("degradation models", "Cell_SPM::SEI/CS/LAM/LiPlating")], ["ageing states through the public state object"])
P("C11", "Ageing rates match the published equations and combine additively",
  "Each side-reaction, cracking, material-loss and plating model advances its states by its published rate equation evaluated at the cell's present surface concentration, overpotential, temperature, current and stress. Rates of simultaneously enabled models add up, advancing by n grouped steps ages by n times the per-step rate, and identifiers of models that do not exist are refused rather than ignored.",
  "inputs configurations histories", "all single models and combinations at random operating points",
  "Tests only compare resistances or capacities after ageing against loose bounds.",
  "src/cells/Cell_SPM/Cell_SPM_degradation.cpp src/cells/Cell_SPM/param/SEIparam_default.hpp src/cells/Cell_SPM/param/CSparam_default.hpp src/cells/Cell_SPM/param/LAMparam_default.hpp src/cells/Cell_SPM/param/PLparam.hpp", [("rate laws", "Cell_SPM::SEI, CS, LAM, LiPlating, dState_degradation")], ["state increments against an independent transcription"])
P("C12", "Cell-to-cell variation factors scale exactly what they name",
  "A cell built with capacity, resistance and ageing-rate factors has its capacity, resistance and side-reaction and material-loss rates multiplied by those factors relative to a nominal cell, other behaviour at equal C-rate being the same (crack models, whose areas are absolute, excepted).",
  "inputs configurations", "all factor values within the plausible manufacturing range",
  "Tests build varied cells but never compare them with a nominal one.",
  "src/cells/Cell_SPM/Cell_SPM.cpp src/cells/Cell_SPM/Cell_SPM.hpp", [("variation constructor", "Cell_SPM(ID, degid, capf, resf, degfsei, degflam)")], ["Cap, Rdc, ageing increments versus a twin"])
# ---- modules -----------------------------------------------------------------------------------
P("M01", "A series string carries one current and adds voltages and resistances",
  "In every series module, whatever its members, the same current flows through all members, the voltage is the sum of the member voltages less contact drops, the resistance is the sum of member and contact resistances and the capacity that of the weakest member.",
  "configurations histories", "all member types, counts, nestings, contact resistances and histories",
  "Tests use two or three equal cells.",
  "src/modules/Module_s.cpp src/modules/Module.cpp", [("series aggregation", "Module_s::V/getRtot/Cap/setCurrent")], ["module and member V, I, R, Cap"])
P("M02", "Parallel branches split the current so that terminal voltages agree",
  "In every parallel module the branch currents add up to the module current, every branch has the same voltage at the module terminal (contact resistances carrying the downstream currents) within the documented tolerance after every accepted operation and step, and the capacity is the sum of the branches. A current the branches can share with room to spare is accepted however uneven they are, with the same split whether it is approached in small steps or asked for at once.",
  "configurations histories", "all member types, counts, imbalances, contact resistances and histories",
  "Tests use a few nearly equal cells; current redistribution only strains for uneven branches.",
  "src/modules/Module_p.cpp src/modules/Module_p.hpp src/modules/Module.cpp", [("redistribution", "Module_p::redistributeCurrent, setCurrent, timeStep_CC")], ["branch V, I, ladder voltages"])
P("M03", "Charge is conserved through any nesting of modules",
  "For any tree of series and parallel modules driven by any schedule, each cell's charge change equals the integral of its own current, branch charges in parallel add up to the module's charge, series members receive equal charge, and cell clocks all advance by the same time.",
  "configurations histories", "all module trees and schedules",
  "Tests check nesting only through voltage spot values.",
  "src/modules/Module_s.cpp src/modules/Module_p.cpp src/modules/Module.cpp", [("propagation of current and time", "setCurrent, timeStep_CC")], ["leaf SOC, throughput, time"])
P("M04", "Copies are deep, equal and independent",
  "A copy of any cell, module or battery reports the same as the original and from then on neither affects the other, including after either is destroyed. Links within the copy point inside the copy.",
  "configurations histories", "all object types and nestings, operations on either side, destruction orders",
  "Tests copy single cells and never look at internal links or destroy the original.",
  "src/modules/Module.cpp src/modules/Module_s.hpp src/modules/Module_p.hpp src/system/Battery.cpp src/types/Deep_ptr.hpp src/StorageUnit.hpp", [("copy()", "StorageUnit::copy implementations, Deep_ptr")], ["reports of both sides, parent links, ASan"])
P("M05", "Parallel execution gives bit-identical results without data races",
  "Stepping a module with multithreading enabled gives exactly the result of stepping it serially, and the parallel loop runs every index exactly once whatever the range and number of threads, also where the machine does not know its number of hardware threads or cannot start another one. An error raised by the work of one index reaches the caller as it does in a serial loop and never ends the program. Independent units can be built, stepped and measured in different threads at the same time without interfering.",
  "schedules configurations", "all thread counts, ranges and module sizes, under perturbed scheduling",
  "Multithreading is not exercised under a race detector and results are not compared with the serial ones.",
  "src/utility/parallelisation.hpp src/modules/Module_s.cpp", [("threaded loop", "slide::run, Module_s::timeStep_CC")], ["TSan, per-index counters, state bits"])
P("M06", "Invalid compositions are refused and leave the module unchanged",
  "Assembling a module from members that do not fit (already owned, over the size limit, empty or null) is refused with an error and never corrupts memory, and a valid assembly links every member to its parent with the right count and identity.",
  "inputs configurations", "all member lists, valid and hostile",
  "Tests assemble a few valid modules.",
  "src/modules/Module.cpp src/modules/Module_s.cpp src/modules/Module_p.cpp", [("composition", "Module::setSUs, validSUs")], ["status, parents, counts, IDs"])
P("M07", "A cell behaves inside a module or battery exactly as it does alone",
  "The same current for the same time does the same to a cell wherever it is built in: charge, concentrations, voltage, ageing states, clock and throughput after a step of a module tree or battery equal those of a lone cell given that cell's current, whatever its neighbours, nesting, threading and blocking are, and blocking a module blocks every cell below it.",
  "inputs histories configurations", "all trees and batteries, ageing models, schedules and blocking patterns",
  "Tests step a few shallow modules and compare totals, never each cell with a cell of its own.",
  "src/modules/Module.hpp src/modules/Module_s.cpp src/modules/Module_p.cpp src/system/Battery.cpp", [("stepping of the members", "Module_s::timeStep_CC, Module_p::timeStep_CC, Battery::timeStep_CC"), ("blocking", "Module::setBlockDegAndTherm")], ["states and throughput of every cell"])
# ---- cycler ------------------------------------------------------------------------------------
P("Y01", "Constant-current cycling stops at the earliest limit and accounts for charge",
  "A constant-current phase applies exactly the requested current until the voltage limit or time limit, whichever comes first, stopping within one step of it and saying which was hit, and its reported charge, energy and time equal what the cells received. Nothing is applied when the limit is already exceeded.",
  "inputs histories configurations", "all units under test, currents, limits, step sizes and logging intervals",
  "Tests run a few currents on default cells.",
  "src/procedures/Cycler.cpp src/procedures/Cycler.hpp", [("CC loop", "Cycler::CC, setCurrent")], ["Status, ThroughputData, cell SOC"])
P("Y02", "Constant-voltage phases hold the voltage until the current or time limit",
  "A constant-voltage phase keeps the voltage at the set value within tolerance until the current falls to the cut-off or the time limit is reached, reports which, and its charge, energy and time accounting equals what the cells received.",
  "inputs histories configurations", "all units, voltages, cut-offs, time limits and steps",
  "Tests run a few voltages on default cells.",
  "src/procedures/Cycler.cpp", [("CV loop", "Cycler::CV"), ("voltage control", "free::setVoltage_iterative")], ["V per step through logged data, Status, ThroughputData"])
P("Y03", "Combined charge/discharge procedures account for every phase",
  "A combined constant-current constant-voltage procedure reports the total charge, energy and time of all its phases, equal to the change of the cells' own counters, and ends at the requested voltage and cut-off current when it reports success.",
  "inputs histories configurations", "all units, voltages, currents, cut-offs and time limits",
  "Tests compare totals loosely for default cells.",
  "src/procedures/Cycler.cpp", [("CCCV", "Cycler::CCCV, CCCV_with_tlim")], ["ThroughputData versus cell counters"])
P("Y04", "Rest leaves charge untouched and takes exactly the requested time",
  "A rest of any requested length leaves no net current, moves every cell clock by exactly that time and, for unconnected cells, leaves the state of charge unchanged, whatever the step size and logging interval.",
  "inputs configurations", "all rest lengths and steps, also not multiples of each other",
  "Tests use round numbers.",
  "src/procedures/Cycler.cpp", [("rest loop", "Cycler::rest")], ["time, SOC, I"])
P("Y05", "Cycling stops at the safety limits and on failures",
  "Whatever is requested, the unit under test (with diagnostic mode: every cell) is never driven further once its voltage is past the safety limits (99 % of its VMIN, 101 % of its VMAX): the phase ends within one step, and is stopped for safety only then. A step that fails or a voltage that cannot be reached ends the phase with a failing status instead of continuing or crashing, and the accounting still matches what the cells received.",
  "fault_sequences inputs configurations", "all requests, including limits beyond the safety window, oversized currents and cells that fail mid-way",
  "Tests never ask for unsafe operation of uneven modules.",
  "src/procedures/Cycler.cpp src/settings/settings.hpp src/types/Status.hpp", [("safety voltage monitoring", "Cycler::CC/CV safety voltage, eachVoltageStatus")], ["every cell voltage after each call"])
P("Y06", "A capacity test measures capacity and restores the unit",
  "The capacity test reports the charge between the upper and lower voltage limit and afterwards the unit's saved state is exactly what it was, with no trace in logs of the data-collection setting.",
  "histories configurations", "all units, starting states and ageing",
  "Tests check the value for a fresh cell only.",
  "src/procedures/Cycler.cpp", [("capacity test", "Cycler::testCapacity")], ["returned Ah, state vectors"])
P("L01", "Logged time series are complete, ordered and match the cells",
  "Data recorded while cycling contain every sample due at the requested interval plus the end of each phase, in time order, each row holding the values the cell had at that moment; what is written to disk is what was recorded, to the printed precision, across buffer flushes, and summary histograms count every sample.",
  "histories configurations", "all intervals, buffer sizes, phases and storage modes",
  "Tests do not read the files back.",
  "src/types/data_storage/CellDataStorage.hpp src/types/data_storage/CellDataWriter.hpp src/types/data_storage/cell_data.hpp src/cells/Cell.hpp src/procedures/Cycler.cpp src/types/data_storage/module_data.hpp", [("storage and writer", "CellDataStorage, CellDataWriter")], ["CSV files"], "compile-time storage mode and buffer size")
P("L02", "Modules and cooling systems record what they did",
  "With storage of module or cooling-system data switched on, every storage call adds exactly one sample per module and per cooling system, the battery's own included (none for a cooling system for which no time has passed). A module's row holds its charge throughput, energy throughput and time since it was made, and its current, voltage and temperature at that moment. A cooling system's sample holds the mean cooling power, fan power and, for air-conditioned ones, air-conditioner consumption of exactly the period since its previous sample, with its flow rate, temperature and air-conditioner power at that moment; histograms count every sample in its bin, per cell. The files contain what was recorded, once.",
  "histories configurations", "all heat flows, control strategies, sampling times, trees and storage modes",
  "No test switches this storage on; three of its parts recorded nothing or the wrong period.",
  "src/cooling/data_storage/CoolSystemData.cpp src/cooling/data_storage/CoolSystem_HVACData.cpp src/cooling/data_storage/CoolSystem_HVACData.hpp src/cooling/CoolSystem_HVAC.cpp src/cooling/CoolSystem.cpp src/modules/Module.hpp src/types/Histogram.hpp", [("cooling data", "CoolSystemData::storeData"), ("module data", "Module::storeData, Module::updateThroughput")], ["CSV files"], "compile-time storage modes")
# ---- system ------------------------------------------------------------------------------------
P("B01", "Converter losses are non-negative, scale with inverter count and are finite",
  "For any input voltage, current and rated power the converter's loss is finite and non-negative, equals the published loss model for the configured number of parallel inverters, and more rated power never yields fewer inverters.",
  "inputs", "all operating points and ratings",
  "Tests evaluate a few points.",
  "src/power_conversion/Converter.cpp src/power_conversion/Converter.hpp", [("loss model", "Converter::getLosses")], ["getLosses"])
P("B02", "Battery quantities scale with its series and parallel multipliers",
  "A battery made of a module and its replication factors reports voltage times series count, current and capacity times parallel count, resistance times series over parallel, and cells times both, and applies set currents divided accordingly.",
  "configurations inputs", "all modules and multipliers",
  "Tests use multipliers of one.",
  "src/system/Battery.cpp src/system/Battery.hpp", [("aggregation", "Battery::V/I/Cap/getRtot/setCurrent")], ["battery vs module reports"])
P("B03", "Battery loss energy accounts for converter losses over time",
  "Converter loss power is that of the present operating point and the accumulated loss energy is its integral over time, reset only when read-and-reset is requested.",
  "histories configurations", "all schedules and converters",
  "Tests check one value.",
  "src/system/Battery.cpp", [("loss accumulation", "Battery::timeStep_CC, getAndResetConvLosses")], ["loss counters"])
P("T01", "Heat generated equals heat stored plus heat removed",
  "With a thermal model on, the heat generated in electrochemical cells (polarisation, resistance, entropy), contact resistances and converters equals the heat stored in cells and coolant plus what the air conditioner removes (or the environment takes), for any tree of modules or battery; heat moves from hot to cold through the documented conductances, nothing at rest gets hotter than the hottest part, a lone cell settles to the temperature of the environment, and blocking the thermal model freezes temperatures. A step which would take a part out of its legal temperatures is reported, leaves every part at a legal temperature and does not block later steps.",
  "histories configurations", "all trees, cooling systems, schedules and temperatures",
  "The thermal model is off in the test build.",
  "src/cells/Cell_SPM/Cell_SPM_thermal.cpp src/modules/Module.cpp src/cooling/CoolSystem.cpp src/system/Battery.cpp", [("thermal models", "thermalModel, CoolSystem::dstate")], ["temperatures, heat counters"], "compile-time thermal model selection")
P("T02", "Cooling control follows its thresholds and physical limits",
  "Each cooling control mode switches flow and active cooling on and off at its documented temperatures (of the coolant, the hottest child or the hottest cell, also inside trees and batteries), coefficients follow the documented convection law of the fluid speed, and flow, power and coefficients are never negative.",
  "inputs histories configurations", "all control modes, temperatures and sizes",
  "Tests never visit the thresholds of every mode.",
  "src/cooling/CoolSystem.cpp src/cooling/CoolSystem_HVAC.cpp src/cooling/CoolSystem_open.hpp", [("control", "CoolSystem::control, getH")], ["flow, H, AC power"])
P("T03", "Cooling energy accounting matches flow and heat moved",
  "Fan energy equals fan power times time, air-conditioner heat, power and energy follow the documented model (active cooling times the coefficient of performance, free cooling for the rest), the coolant temperature follows from the heat absorbed and removed over its heat capacity, heat absorbed equals what was delivered, and resets return exactly what was accumulated.",
  "histories configurations", "all cooling types, control modes and schedules",
  "Tests check no energy counters.",
  "src/cooling/CoolSystem.cpp src/cooling/CoolSystem_HVAC.cpp", [("energy counters", "CoolSystem::dstate, getHeatEvac, reset_*")], ["energy counters"])
# ---- procedures / utilities --------------------------------------------------------------------
P("P01", "Cycle-ageing runs the requested cycles and records each check-up",
  "An ageing procedure performs the requested number of cycles within the requested voltage window, with balancing and check-ups at the requested intervals and a final check-up saying how many cycles were done, records in its files throughput rows that match the charge, energy and time the cells received and capacities and states that match the cells, and stops with its records intact when a phase fails.",
  "histories configurations fault_sequences", "all cycle counts, intervals, limits and units",
  "Tests run a few cycles and ignore the files.",
  "src/procedures/Procedure.cpp src/procedures/Procedure.hpp", [("ageing loop", "Procedure::cycleAge, useCaseAge")], ["CSV files, cell counters"])
P("P02", "A check-up measures every cell without altering the unit",
  "A check-up first charges a unit which is below three quarters of its voltage window slowly up to there and then adds one row per cell to its file (identity, variation, throughput, measured capacity and state) and rewrites the file of the modules with one row each, with well-formed columns and values equal to what the cells and cooling systems report. Everything after the slow charge is measured on copies: the unit itself is unchanged, and nothing is leaked.",
  "histories configurations", "all units and states",
  "Tests do not compare state before and after or read the file.",
  "src/procedures/Procedure.cpp", [("check-up", "Procedure::checkUp")], ["files, states, LeakSanitizer"])
P("P03", "Balancing brings every cell to the target voltage",
  "Balancing leaves every cell of any tree, batteries included, at rest and at the target voltage within tolerance, with ageing and thermal updates suspended during it and re-enabled after it.",
  "configurations histories", "all trees and imbalances",
  "Tests balance equal cells.",
  "src/procedures/Procedure.cpp src/StorageUnit.hpp src/modules/Module.hpp", [("balancing", "Procedure::balanceCheckup, rebalance")], ["cell voltages, ageing states"])
P("U01", "Curve interpolation is exact at nodes, linear between, and guards its range",
  "Interpolation returns the tabulated value at nodes and the straight line between neighbours for any table spacing, clamps or refuses queries outside the table as requested, refuses a table without points, and never reads outside the table.",
  "inputs", "all tables (uniform or not, ascending) and queries including boundaries",
  "Tests do not cover the interpolation code directly.",
  "src/utility/interpolation.hpp src/types/XYdata.hpp src/utility/slide_algorithms.hpp src/types/FixedData.hpp", [("interpolation", "linInt, XYdata::interp")], ["returned values versus a reference"])
P("U02", "Histograms count every sample in exactly one, correct bin",
  "Each sample added to a histogram is counted once, in the bin that contains its value or in the outermost bin on its side, so bin counts sum to the number of samples.",
  "inputs", "all ranges and samples including boundaries and extremes",
  "Histograms are exercised only through disabled storage modes.",
  "src/types/Histogram.hpp", [("binning", "Histogram::add")], ["bin counts versus a reference"])
P("U03", "Containers and generators behave as their standard counterparts",
  "The small vectors, matrices, owning pointers, lazily computed ranges and sorting or searching helpers return what the obvious reference would, for every size and element, with bounds respected.",
  "inputs histories", "all sizes and operation sequences",
  "Tests do not cover these utilities.",
  "src/types/SmallVector.hpp src/types/Deep_ptr.hpp src/types/FixedData.hpp src/types/matrix.hpp src/types/DynamicMatrix.hpp src/utility/array_util.hpp", [("utilities", "types/ and utility/")], ["results versus std counterparts"])
P("U04", "Tabular data read from files are what the files contain",
  "Reading a numeric table yields exactly the file's rows and columns in order; a missing, short or malformed file yields an error, never made-up values or out-of-bounds access. Rows written to a file are the rows read from it.",
  "inputs fault_sequences", "all well-formed and malformed files",
  "Tests only read the shipped files.",
  "src/utility/io/read_CSVfiles.hpp src/types/XYdata.hpp", [("readers", "loadCSV_1col/2col/mat, XYdata::setCurve")], ["returned data versus the text written"])
P("U05", "Electrode matching recovers the cell it was given",
  "Fitting electrode sizes and starting concentrations to an open-circuit voltage curve produced by known values returns a curve within the reported error, the reported error being the true root-mean-square difference, and lithium fractions within bounds.",
  "inputs", "all admissible electrode sizes and concentrations",
  "Tests do not cover the fitting code.",
  "src/procedures/determine_OCV.cpp src/procedures/determine_OCV.hpp", [("OCV fit", "discharge_noexcept, calculateError, OCVfit")], ["fit outputs versus the generating values"])
P("U06", "Bayesian parameter estimation adapts and scores as its formulas say",
  "Adapting the proposal changes its covariance by exactly the step (acceptance minus 0.234) over the square root of the iteration in the direction of the last proposal and keeps a lower-triangular factor; the negative log posterior is the Gaussian misfit plus its normalisation minus the log prior of positive parameters, impossible parameters never reach the cost function, and every parameter, output and record element is the one stored, in bounds.",
  "inputs histories", "all dimensions, chains of adaptations, parameters, noise levels and priors",
  "No test includes this code.",
  "src/optimisation/MCMC.hpp src/utility/slide_aux.hpp src/types/matrix.hpp", [("estimation helpers", "S_update, cholUpdate, LL, Prior, MCMC_Input, MCMC_Record, GammaDensityFunctor, norm")], ["results against long-hand formulas"])
P("F01", "Factories build the documented topologies",
  "Each battery factory returns a valid unit with the documented number of cells, nesting, cooling systems and contact resistances, all members linked, unique identities and usable at once, with cell variation drawn around nominal.",
  "configurations", "all factories and options",
  "Tests build few of them and check nothing structural.",
  "src/factories/makeBattery.cpp", [("factories", "make*")], ["tree walk"])
P("S01", "No input or schedule triggers memory errors, undefined behaviour or leaks",
  "Running any combination of cells, modules, batteries, procedures and files through the public interface causes no out-of-bounds access, use after free, failed internal assertion, undefined arithmetic, leak or hang, and repeating the same calls on new objects ends in the same state; wrong inputs are reported through status codes or exceptions. Sequences keep to the stated usage rules: a copy of a member does not outlive the module the original sits in, and modules are given members before they are operated.",
  "histories inputs configurations fault_sequences", "all call sequences through the public interface",
  "Tests run without sanitizers on well-behaved inputs.",
  "src", [("whole library", "src/")], ["ASan, UBSan, LSan"])
