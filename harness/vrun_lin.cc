#include "vrun.h"
std::string run_lin(const Cfg &c) { return run_gp<GenoPheno<NoBoundStrategy,linScalingStrategy>>(c); }
