CXX = "-O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -DSLIDE_VERIF -Wno-deprecated-declarations"
ASAN = CXX + " -fsanitize=address,undefined -fno-sanitize-recover=undefined"
CONFIGS = {
 "asan": {"flags": ASAN},
 "tsan": {"flags": CXX + " -fsanitize=thread"},
 "asan-buf": {"flags": ASAN + " -DSLIDE_VERIF_CELL_NDATA=7 -DSLIDE_VERIF_DATASTORE_COOL=2 -DSLIDE_VERIF_DATASTORE_MODULE=storeTimeData"},
 "asan-hist": {"flags": ASAN + " -DSLIDE_VERIF_DATASTORE_CELL=storeHistogramData -DSLIDE_VERIF_DATASTORE_COOL=1"},
 "asan-t1": {"flags": ASAN + " -DSLIDE_VERIF_T_MODEL=1"},
 "asan-t2": {"flags": ASAN + " -DSLIDE_VERIF_T_MODEL=2"},
}
PROPS = {
 "C01": dict(runs=[dict(exe="vcell")], rule="Random cell types, capacities and current schedules; state of charge compared with an independent extended-precision integral after every step.", need=["steps", "spm-discharge", "ecm-charge"]),
 "C02": dict(runs=[dict(exe="vcell")], rule="Random schedules on the electrochemical cell; electrode inventories read on equilibrated copies and compared with the charge passed; relaxation and pseudo-steady profiles compared with analytic diffusion.", need=["inventory-balances", "balances-with-loss"]),
 "C03": dict(runs=[dict(exe="vcell")], rule="Random schedules; counters compared with sums kept by the harness after every call.", need=["single-steps"]),
 "C04": dict(runs=[dict(exe="vcell")], rule="Twin cells driven by the same schedule in different groupings; zero, negative and refined steps.", need=["batches"]),
 "C05": dict(runs=[dict(exe="vmod")], rule="Random operation sequences on cells and module trees; all reports compared with a fresh twin given the saved state, and runs with and without interleaved queries compared bit for bit.", need=["coherence-comparisons", "purity-comparisons", "parameter-changes"]),
 "C06": dict(runs=[dict(exe="vcell2")], rule="Random and artificially aged cells of every model at random operating points, compared with closed forms and an independent model.", need=["ecm-voltages", "spm-voltages", "parameter-voltages", "branch-currents", "aged-states", "equilibria", "monotone-sweeps", "ecm-relaxed"]),
 "C09": dict(runs=[dict(exe="vcell2")], rule="Cells and modules driven to voltages at and around every limit in both current directions; every status value put through every predicate.", need=["status-0", "status-1", "status-2", "status-3", "status-4", "status-7", "charging", "discharging", "resting", "predicate-rows", "exactly-at-limit", "end-of-table-at-limit"]),
 "C07": dict(runs=[dict(exe="vmod")], rule="Random histories on cells and module trees; state saved, object disturbed, state restored; twins continued with the same operations.", need=["restores", "continuations"]),
 "C08": dict(runs=[dict(exe="vmod"), dict(exe="vsys", name="C08-battery")], rule="Requests around and beyond the limits on cells and trees with one weak member at a random position, damaged state vectors; full state vectors before and after.", need=["refused-current", "refused-voltage", "refused-soc", "refused-state", "refused-current-series", "refused-current-parallel", "refused-module-state", "uneven-strings", "voltage-from-outside-window", "edge-states", "battery-refused-current", "battery-refused-voltage", "battery-refused-state"]),
 "M01": dict(runs=[dict(exe="vmod")], rule="Random series strings and nestings under random schedules.", need=["series-checks", "weak-members"]),
 "M02": dict(runs=[dict(exe="vmod")], rule="Random parallel modules and nestings under random schedules; branch voltages recomputed from first principles, and twins which reach a current in small steps compared with those asked for it at once.", need=["parallel-checks", "analytic-splits", "steps", "reachable-currents"]),
 "M03": dict(runs=[dict(exe="vmod")], rule="Random trees under random schedules; charge recomputed from the leaves up.", need=["trees-balanced"]),
 "M04": dict(runs=[dict(exe="vmod")], rule="Random cells and trees copied three ways, operated on either side and destroyed in either order under AddressSanitizer.", need=["original-destroyed", "copy-destroyed"]),
 "M05": dict(runs=[dict(exe="vpar", cfg="tsan", name="M05-tsan"), dict(exe="vpar", name="M05-asan")], rule="Parallel loops of every range and thread count, module trees stepped with threads against serial twins, members that dawdle or fail, and simulations in threads of their own, with delays injected into the tasks, under ThreadSanitizer and AddressSanitizer.", need=["loops", "loops-with-unknown-hardware", "loops-without-threads", "failing-loops", "overlapping-tasks", "threaded-module-steps", "failing-members", "concurrent-simulations"]),
 "M06": dict(runs=[dict(exe="vmod")], rule="Random valid trees and hostile member lists.", need=["assemblies", "owned-members", "null-members", "oversized-modules"]),
 "M07": dict(runs=[dict(exe="vsys")], rule="Random module trees and batteries with ageing cells under random schedules; every cell accompanied by a lone copy that is given the same current for the same time, all states compared after every step.", need=["companion-steps", "aged-in-module", "blocked-in-module"]),
 "C10": dict(runs=[dict(exe="vage"), dict(exe="vsys", name="C10-tree")], rule="Random sets of ageing models under random schedules with blocking switched on and off; every ageing state before and after each step, against the allowed direction and a twin with ageing blocked.", need=["blocked-states", "inactive-states", "active-states-moved", "aged-states-restored", "simulated-hours", "blocked-in-module", "aged-in-module"]),
 "C11": dict(runs=[dict(exe="vage")], rule="Every single ageing model and random combinations at random operating points; state increments compared with an independent transcription of the rate equations evaluated on a twin with ageing blocked.", need=["unknown-models", "names", "film-growth", "lost-lithium", "thickness-loss", "volume-fraction-loss-p", "volume-fraction-loss-n", "area-loss", "crack-growth", "diffusion-loss", "plating", "single-model-steps", "combined-model-steps", "stress-profiles"]),
 "C12": dict(runs=[dict(exe="vage")], rule="Random variation factors; a varied cell and a nominal cell driven at equal C-rate from the same state.", need=["varied-steps", "aged-quantities"]),
 "Y01": dict(runs=[dict(exe="vcyc")], rule="Random cells and module trees behind a recording proxy; constant-current phases with random limits, steps and logging intervals; every step in the trace checked, totals compared with the trace and with the charge the cells received.", need=["cc-steps", "voltage-limit", "time-limit", "limit-already-exceeded", "full-swings", "second-stage-steps"]),
 "Y02": dict(runs=[dict(exe="vcyc")], rule="Random cells and module trees behind a recording proxy; constant-voltage phases with random voltages, cut-offs and time limits; voltage before every step, stop conditions and totals checked.", need=["cv-steps", "current-limit", "time-limit", "already-at-limit"]),
 "Y03": dict(runs=[dict(exe="vcyc")], rule="Combined phases with and without time limit on random units; phases reconstructed from the trace, totals compared with the trace and the cells.", need=["completed", "time-limit", "cc-phases", "cv-phases", "invalid-voltage"]),
 "Y04": dict(runs=[dict(exe="vcyc")], rule="Rests of random length on random, unrelaxed units; clocks, currents and charge per cell before and after.", need=["rests", "isolated-cells", "connected-units"]),
 "Y05": dict(runs=[dict(exe="vcyc")], rule="Requests far beyond the limits with and without diagnostic mode, and injected failures of steps, currents and voltages at a random call; trace, status and accounting checked.", need=["refused-or-stopped", "unsafe-voltage-stopped", "diagnostic-stops", "fault-kind0-op0", "fault-kind0-op1", "fault-kind0-op2", "fault-kind0-op3", "fault-kind1-op0", "fault-kind1-op1", "fault-kind2-op2"]),
 "Y06": dict(runs=[dict(exe="vcyc")], rule="Capacity tests from random states with and without injected failures; states, reports and trace compared.", need=["capacities", "failed-tests-restored", "closed-form"]),
 "L01": dict(runs=[dict(exe="vlog", cfg="asan-buf"), dict(exe="vlog", cfg="asan-hist")], rule="Random units driven through random logged phases, once with a data buffer of seven samples and once with histogram storage; every sample and state in the files compared with what the proxy saw when it was taken, and sampling times with the requested interval.", need=["due-samples", "rows-compared", "files-with-several-flushes", "shared-units", "histograms", "logged-phases"]),
 "L02": dict(runs=[dict(exe="vlog", cfg="asan-buf"), dict(exe="vlog", cfg="asan-hist")], rule="Random cooling systems, alone and inside random trees and batteries, moved through random heat exchanges, controls, samples, copies and writes, and random trees stepped with module storage on; every row, histogram bin and header of the files compared with an independent account of the periods between samples.", mult=6, need=["checkup-histograms", "cooling-rows-compared", "ac-rows-compared", "cooling-histograms", "tree-samples", "module-rows-compared", "stores-without-time"]),
 "T01": dict(runs=[dict(exe="vtherm", cfg="asan-t2"), dict(exe="vtherm", cfg="asan-t1")], rule="Random cells, module trees and batteries with both thermal models compiled in, driven through random currents; temperature of every cell and coolant after every step compared with an independent heat balance, and the balance of the whole tree closed.", need=["cell-steps", "tree-steps", "nested-steps", "battery-steps", "rests", "blocked-steps", "air-conditioned-steps", "settled", "refused-steps", "refused-tree-steps"]),
 "T02": dict(runs=[dict(exe="vcool"), dict(exe="vtherm", cfg="asan-t2")], rule="Random cooling systems of every kind, size and control strategy driven to temperatures at and around every threshold, swept up and down, and fed impossible temperatures; flow, heat transfer and air-conditioner power compared with the documented control laws.", need=["control-1", "control-2", "control-3", "control-4", "control-5", "flow-on", "flow-off", "ac-on", "ac-off", "new-systems", "sweeps", "refused-temperatures"]),
 "T03": dict(runs=[dict(exe="vcool"), dict(exe="vsys", name="T03-battery")], rule="Random histories of heat flows and control actions on cooling systems of every kind; temperature, heat and energy accounts compared with sums kept by the harness; cooling load of random trees compared with their parts.", need=["steps", "fan-on", "fan-off", "active-cooling", "free-cooling", "resets", "tree-loads", "battery-loads"]),
 "B01": dict(runs=[dict(exe="vsys")], rule="Random ratings and operating points, including the corners of the loss curves and exact multiples of a unit's rating; losses compared with an independent transcription of the published model.", need=["operating-points", "single-unit", "several-units", "charging", "discharging", "idle", "saturated-dc", "saturated-ac", "extreme-points"]),
 "B02": dict(runs=[dict(exe="vsys")], rule="Batteries made of random module trees with random multipliers under random schedules; every report compared with the module's, and the battery with a unit in which the copies really exist.", need=["report-comparisons", "replicated", "steps", "voltages-set", "restores", "unrolled-steps", "refused-modules"]),
 "B03": dict(runs=[dict(exe="vsys")], rule="Batteries of random trees and multipliers under random schedules; loss counters compared with the independent loss model integrated by the harness, through resets, copies and blocking.", need=["steps", "batches", "read-and-reset", "resets", "copies", "several-units", "replicated-after-assembly"]),
 "U01": dict(runs=[dict(exe="vutil")], rule="Random tables (uniform, nearly uniform, drifting, irregular, lazy) and the shipped curves queried at nodes, next to nodes, between, outside and at non-numbers through every front end, compared with an extended-precision reference; empty tables are refused; memory ends where the table ends.", need=["uniform", "nearly-uniform", "drifting", "irregular", "one-step-differs", "inside", "outside", "not-a-number-or-infinite", "empty-tables", "lazy-tables", "shipped-curves"]),
 "U02": dict(runs=[dict(exe="vutil")], rule="Random ranges and samples on, next to, between and far outside the edges; the change of every bin after each sample.", need=["inside", "below", "above", "histograms"]),
 "U03": dict(runs=[dict(exe="vutil")], rule="Random operation sequences on the containers and helpers, compared with standard counterparts and closed forms.", need=["small-vectors", "refused-pushes", "pointer-sequences", "copies", "moves", "ranges", "cholesky-updates", "cholesky-downdates", "dynamic-matrices", "parallel-runs", "tables-written"]),
 "U04": dict(runs=[dict(exe="vutil", timeout=200)], rule="Random tables written in every dialect the files use, spoiled in random ways, or odd from the start; what was read compared with what was written; the shipped data against an independent reader.", need=["written-files", "tables-read", "malformed-tables", "tables-too-large", "matrices-read", "malformed-matrices", "odd-files", "missing-files", "shipped-files"]),
 "U05": dict(runs=[dict(exe="vfit", timeout=850)], rule="Random electrode curves and the cells they make, with and without noise; discharges, errors and fits over random grids compared with an independent search; estimates from the shipped curves.", need=["discharges", "discharges-refused", "differences", "curves-valid", "curves-invalid", "files-read", "fits", "fits-with-known-answer", "refinements-compared"]),
 "U06": dict(runs=[dict(exe="vmcmc")], rule="Random chains of proposal adaptations in one to nine dimensions, random priors, noise levels and costs; covariances, likelihoods, densities and norms compared with long-hand formulas.", mult=4, need=["adaptations", "likelihoods", "impossible-parameters", "norms", "densities"]),
 "P01": dict(runs=[dict(exe="vproc", timeout=300), dict(exe="vproc", cfg="asan-t2", name="thermal", timeout=300)], rule="Random cells, module trees and batteries whose top object records every current, voltage and step; ageing procedures with random settings and injected failures; the sequence of phases, the throughput and check-up files and the cells' counters compared with the trace.", need=["cycles-completed", "stopped-by-fault", "stopped-nothing-charged", "throughput-rows", "converter-rows", "cooling-rows", "cell-counters", "check-up-rows", "state-files", "use-cases-completed"]),
 "P02": dict(runs=[dict(exe="vproc", timeout=300), dict(exe="vproc", cfg="asan-t2", name="thermal", timeout=300)], rule="Random aged cells, module trees and batteries; a checked unit compared state by state with a twin that was only charged to the starting voltage, the files compared with measurements on copies of the twin's cells, and memory compared before and after.", need=["units-compared", "spm-rows", "ecm-rows", "module-rows", "module-rows-with-heat", "slow-charges", "leak-comparisons"]),
 "P03": dict(runs=[dict(exe="vproc", timeout=300)], rule="Random unbalanced trees and batteries balanced to random voltages; voltage, current, temperature and ageing states of every cell before and after, ageing of copies compared with a twin.", need=["spm-cells-balanced", "ecm-cells-balanced", "cells-balanced", "impossible-targets", "ageing-resumed", "within-a-millivolt", "failures-reported", "successes-reported"]),
 "S01": dict(runs=[dict(exe="vapi", timeout=400)], rule="Random sequences of calls to the whole public interface (cells, modules, batteries, factories, cycler, files), ordinary and hostile, under AddressSanitizer, UndefinedBehaviorSanitizer and the library's assertions; identical lives compared by the memory left in use.", need=["calls", "errors-thrown", "refused", "accepted", "leak-comparisons", "factory-lives"]),
 "F01": dict(runs=[dict(exe="vfact")], rule="Every factory with random options; the whole tree walked and compared with the documented topology, resistances and spread statistics, then used.", need=["built-makeBattery", "built-makeBattery2", "built-makeBattery_EPFL", "built-makeBattery_EPFL_smaller", "built-makeBattery_Test", "built-makeBattery_TestParallel", "batteries-used", "spreads-checked"]),
}
# how many times more cases than the numbers written in the harness (quick; four times as many again in thorough): checks whose cases are cheap
for _p, _m in dict(C01=40, C02=4, C03=40, C04=40, C05=15, C06=30, C07=20, C08=20, C09=20, C10=2, C11=3, C12=6, M01=30, M02=30, M03=40, M04=30, M06=20, M07=10,
                   B01=20, B02=15, B03=20, Y01=10, Y02=5, Y03=2, Y04=8, Y05=3, Y06=2, L01=4, T02=8, T03=30, U01=8, U02=15, U03=8, U04=8, U05=2, P03=4, F01=2).items():
    PROPS[_p]["mult"] = _m
