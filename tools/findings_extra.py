KNOWN = [
 {"id": "stress-history", "property": "C07", "key": "continuation-differs-stress-history", "group": "continue-stress", "detail": "",
  "what": "with stress-driven ageing (crack models 1 and 2, loss-of-material model 1) the stress of the previous step is not part of the saved states, so a restored cell ages differently in its first step"},
 {"id": "stops-at-cell-limit", "property": "P01", "key": "stopped-at-cell-limit", "group": "full-range", "detail": "",
  "what": "cycleAge runs its constant-current phases in diagnostic mode but treats the voltage of a cell passing its own limit as a failure, so cycling up to or down to the limits of the cells (the default) ends in the first cycles instead of after the requested number"},
]
FIX = [
 ("a parallel module refused currents which one", "M02", "a parallel module of uneven members refused currents it can carry, because the voltages were checked while the change of the current was still distributed equally"),
 ("a stop at the safety limits was reported as", "C09", "the message of the two safety statuses which a cycler returns was that of an unknown status"),
 ("an illegal battery temperature must not", "C08", "Battery::setStates threw on an illegal battery temperature and left the cells with the new states"),
 ("lowest cell voltage of a parallel", "M02", "getVlow of a parallel module was capped at the upper voltage limit when every cell was above it"),
 ("states of a cell whose area decreases", "C07", "restoring the state of a cell aged by the fourth material-loss model was refused after about 20 minutes"),
 ("entropic coefficient of the anode must", "C11", "the anode potential used by the ageing models took the entropic coefficient at the lithium fraction of the cathode"),
 ("data points were not stored at", "L01", "data points were stored every ndt-th batch of steps counted from a counter that was not reset, so the interval was not the requested one"),
 ("time spent in a constant voltage phase", "Y02", "ThroughputData.time() of a constant voltage phase stayed 0"),
 ("constant voltage phase threw an error", "Y02", "CV threw when the time limit was not an exact multiple of the step"),
 ("setting a current: the discharge limit", "Y01", "Cycler::setCurrent compared the charge voltage with the discharge limit and ignored a refused current"),
 ("constant voltage phase continued when", "Y05", "CV continued with the old current after setVoltage had failed"),
 ("last step of a constant current phase", "Y05", "charge and time of the step in which a cell reached its limit were missing from the totals"),
 ("capacity test must restore", "Y06", "after testCapacity the unit was left discharged (states restored only in part) when a phase failed"),
 ("constant current phase must stop at the safety", "Y05", "without diagnostic mode CC never compared the voltage with the safety limits"),
 ("rows of a data file written by", "L01", "the first row of a flush was glued to the last row of the previous one"),
 ("parallel module checked the voltage of its members", "M02", "setCurrent(I, checkV=false) and redistribution of a parallel module checked voltages anyway, so a module outside the limits could not rest"),
 ("voltage of a parallel module could only be set", "Y02", "Module_p::setVoltage diverged when the members' resistances were small or large, or with contact resistances"),
 ("setting the voltage of an ECM cell outside", "Y05", "setVoltage of an ECM cell threw an int out of V() instead of refusing"),
 ("search for the current of a given voltage", "Y02", "the false-position search of series modules divided by zero or diverged to infinite currents and left them applied"),
 ("write histogram data instead", "L01", "storing histograms did not compile; values far above the range were counted as below it and the last bin edge could be missing from the file"),
 ("rate the converter for the entire battery", "B03", "a battery whose series/parallel multiples were set after its module kept a converter rated for a single module"),
 ("interpolation in nearly equidistant", "U01", "tables whose steps are equal within 1 % were interpolated in the wrong segment, or read past their end"),
 ("interpolating at nan", "U01", "interpolation at nan read element -1 of the table"),
 ("checking the steps of a table", "U01", "checking whether a table with fewer than two rows is equidistant read past its end"),
 ("adding to a full SmallVector", "U03", "push_back on a full SmallVector wrote past its storage"),
 ("rank-one update of a Cholesky", "U03", "cholUpdate scaled only the elements below the diagonal, so L*L' was not the updated matrix"),
 ("range_fix could miss", "U03", "range_fix lost its last point for steps that are not exact in binary"),
 ("reading an empty file", "U04", "loading an empty or BOM-only CSV file never ended; leading white space of a matrix swallowed its first digit"),
 ("short or malformed tables", "U04", "short, ragged or non-numeric CSV tables were read as made-up numbers; tables longer than an array were written past its end"),
 ("data race on the cache of tables", "M05", "cells constructed in different threads raced on the static cache of CSV tables"),
 ("simulated OCV discharge reports", "U05", "discharge() returned a curve for starting fractions outside the electrode curves instead of throwing"),
 ("an OCV curve without data points", "U05", "validOCV read the first row of an empty table"),
 ("check-up leaked", "P02", "every check-up leaked a copy of every cell"),
 ("column names of a check-up", "P02", "the header of the check-up file lacked a comma between CycleNumber and time"),
 ("check-up assumed at least one cell", "P02", "check-up of a unit whose first cell is an SPM skipped the first ten states of the other kinds of cell"),
 ("throughput file named a column", "P01", "the header of the throughput file named five columns for four values"),
 ("histogram of the energy of the air", "P02", "the module check-up wrote the heat histogram of the air conditioning twice and never its energy"),
 ("balancing skipped all cells of a battery", "P03", "balancing did nothing for batteries, and for cells that are not exactly Cell_SPM"),
 ("cycle ageing without balancing", "P01", "a check-up or balancing interval of 0 divided by zero"),
 ("final check-up of an ageing procedure that stopped early", "P01", "the final check-up recorded the requested number of cycles when the procedure had stopped before"),
 ("throughput file of an ageing procedure that does not start", "P01", "without a check-up in the first cycle the throughput file had no header and kept the rows of an earlier run"),
 ("an error in a worker thread terminated", "M05", "an exception thrown by the work of one index of the parallel loop called std::terminate"),
 ("currents of parallel modules did not converge", "F01", "setting the current of a parallel module with a large resistance times capacity (e.g. the branches of the EPFL battery) never converged; setVoltage and redistribution used other tolerances"),
 ("states with an invalid module temperature", "S01", "restoring states with a module temperature outside the allowed range aborted, or left the members changed"),
 ("parallel module accepted currents for which", "Y01", "when a member of a parallel module was exhausted in a step, the redistribution took voltages that could not be calculated (0) as equal and left currents of thousands of ampere in the members"),
 ("statistics of the air conditioner", "L02", "the data of the air conditioner had the wrong type, so neither histograms nor time data of it were ever stored or written"),
 ("time data of cooling systems held", "L02", "with time-data storage the sums of a cooling system's heat and energy were never reset, so the means of a sample were not those of its period"),
 ("the histogram file of a cooling system", "L02", "the histogram file held the energy since the last sample (always 0) as total operating energy"),
 ("modules which store data never counted", "L02", "the charge, energy and time a module records were never updated, and not initialised"),
 ("after one child was refused a temperature", "T01", "when the thermal model of one cell in a tree failed (illegal temperature), the others kept the time and heat of that step, so every following step threw an error about the time keeping, once for each of them"),
 ("after its OCV curves or characterisation", "C05", "after setOCVcurve or setCharacterisationParam an SPM cell kept reporting the voltage calculated with the old curves or parameters"),
 ("the name of an ageing setting", "C11", "DEG_ID::print wrote a stray dash when no model for loss of active material was chosen (0-_1 instead of 0_1)"),
 ("the norm of a vector", "U06", "norm<N> did not compile when used, and norm_sq of an odd power let negative elements cancel positive ones"),
 ("a parallel loop did nothing", "M05", "slide::run did not run any index if std::thread::hardware_concurrency() returned 0 (not known)"),
 ("a parallel loop ended the program", "M05", "if the system could not start another thread, the threads already started were destroyed while running, which calls std::terminate"),
 ("interpolation in an empty table", "U01", "linInt and XYdata::interp read the first and last point of a table without points"),
 ("a cooling system made without a number of cells", "T02", "a cooling system made by its default constructor has the flow of 100 cells through the cross section of one: flow speed 2000 m/s and h = -1789 W/m2/K"),
 ("states written to a file", "U04", "output_printer wrote no line ends, so the last number of a row and the first of the next one became one number"),
 ("the current of the parallel resistance of a cell without one", "C06", "Cell_Bucket::getIr read past the end of the states of the cell"),
 ("the MCMC header", "U06", "MCMC.hpp lacked its includes, and the elements of an input after the first output were refused although size() counts them"),
]
