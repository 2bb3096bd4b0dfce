#include "vrun.h"
std::string run_pwqlin(const Cfg &c) { return run_gp<GenoPheno<pwqBoundStrategy,linScalingStrategy>>(c); }
