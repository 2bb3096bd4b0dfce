#include "vrun.h"
std::string run_pwq(const Cfg &c) { return run_gp<GenoPheno<pwqBoundStrategy>>(c); }
