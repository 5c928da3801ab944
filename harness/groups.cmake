vexe_cells(vcell c_cells1.cpp)
vexe_mod(vmod c_mod1.cpp)
vexe_mod(vcell2 c_cells2.cpp)
vexe_cells(vage c_age.cpp)
vexe_with(vcyc "procedures;system;modules;cooling;power_conversion;cells;Cell_SPM" c_cyc.cpp)
vexe_with(vlog "procedures;system;modules;cooling;power_conversion;cells;Cell_SPM" c_log.cpp)
vexe_mod(vcool c_cool.cpp)
vexe_with(vtherm "system;modules;cooling;power_conversion;cells;Cell_SPM" c_therm.cpp)
vexe_with(vsys "system;modules;cooling;power_conversion;cells;Cell_SPM" c_sys.cpp)
vexe_mod(vutil c_util.cpp)
vexe_with(vfit "cells;Cell_SPM" c_fit.cpp)
vexe_with(vproc "procedures;system;modules;cooling;power_conversion;cells;Cell_SPM" c_proc.cpp)
vexe_with(vfact "factories;procedures;system;modules;cooling;power_conversion;cells;Cell_SPM" c_fact.cpp)
vexe_with(vpar "procedures;system;modules;cooling;power_conversion;cells;Cell_SPM" c_par.cpp)
vexe_with(vapi "factories;procedures;system;modules;cooling;power_conversion;cells;Cell_SPM" c_api.cpp)
vexe_cells(vmcmc c_mcmc.cpp)
