#include "vrun.h"
std::string run_none(const Cfg &c) { return run_gp<GenoPheno<NoBoundStrategy>>(c); }
