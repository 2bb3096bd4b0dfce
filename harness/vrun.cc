// Runs one optimization per config line (see vrun.h).
#include "common.h"
std::string run_none(const Cfg &c);
std::string run_pwq(const Cfg &c);
std::string run_lin(const Cfg &c);
std::string run_pwqlin(const Cfg &c);
static std::string body(const Cfg &c)
{
  std::string gp=c.s("gp","none");
  if (gp=="none") return run_none(c);
  if (gp=="pwq") return run_pwq(c);
  if (gp=="lin") return run_lin(c);
  return run_pwqlin(c);
}
int main(int argc,char **argv) { return drive(argc,argv,body); }
