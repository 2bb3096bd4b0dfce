// Surrogate-assisted optimizations: what was really evaluated, predicted and learnt in each iteration.
#include "vrun.h"
#include <libcmaes/surrogatestrategy.h>

static std::string pts(const std::vector<Candidate> &v)
{
  std::string o="[";
  for (size_t i=0;i<v.size();i++) o+=std::string(i?",":"")+"{\"f\":"+jd(v[i].get_fvalue())+",\"x\":"+jv(v[i].get_x_dvec())+"}";
  return o+"]";
}
template <class B> struct Open : public B
{
  template <class P> Open(FitFunc &f, P &p):B(f,p) {}
  const std::vector<Candidate>& tset() const { return this->_tset; }
};
// models: how well the predictions follow the objective
static double model(const std::string &m, const dVec &x, int k)
{
  double s=0;
  for (int i=0;i<x.size();i++) s+=x[i]*x[i]*(i+1);
  if (m=="good") return s;
  if (m=="bad") return -s;
  if (m=="const") return 1.0;
  if (m=="low") return s-1e6;
  // neither good nor bad: a function of the point
  unsigned h=17+k*0; for (int i=0;i<x.size();i++) h=h*31u+(unsigned)(long long)std::floor(x[i]*1000); return (h%1000)/100.0;
}
template <class S, class GP> struct Tune { static void set(S&, const Cfg&) {} static std::string get(S&) { return ""; } };
template <template <class,class> class T, class U, class GP> struct Tune<ACMSurrogateStrategy<T,U,GP>,GP>
{
  typedef ACMSurrogateStrategy<T,U,GP> S;
  static void set(S &s, const Cfg &c) { if (c.has("lprime")) s.set_lambdaprime(c.i("lprime")); if (c.has("prelambda")) s.set_prelambda(c.i("prelambda")); }
  static std::string get(S &s) { return ",\"lprime\":"+std::to_string(s.get_lambdaprime())+",\"prelambda\":"+std::to_string(s.get_prelambda()); }
};
template <class S, class GP> std::string once(const Cfg &c)
{
  auto x0=c.dl("x0"); Obj obj(c);
  FitFunc func=[&obj](const double *x,const int &n) { return obj(x,n); };
  GP gp=MkGP<GP>::mk(c);
  CMAParameters<GP> p(x0,c.d("sigma",0.5),c.i("lambda",-1),(uint64_t)c.i("seed",1),gp); setters(p,c);
  int a=p.get_algo(); if (a>=6 && a<=11) p.set_sep(); if (a>=12) p.set_vd();
  typedef ESOptimizer<Open<S>,CMAParameters<GP>> O;
  O opt(func,p);
  Open<S> &st=opt;
  if (c.has("l")) st.set_l(c.i("l"));
  if (c.has("nsteps")) st.set_nsteps(c.i("nsteps"));
  if (c.has("exploit")) st.set_exploit(c.i("exploit"));
  Tune<S,GP>::set(st,c);
  std::string mod=c.s("model","good"), ops, ev; bool f=true;
  auto op=[&](const std::string &o) { if (!ops.empty()) ops+=","; ops+=o; };
  st.set_ftrain([&](const std::vector<Candidate> &v,const dMat &m){ op("{\"op\":\"t\",\"p\":"+pts(v)+",\"rows\":"+std::to_string(m.rows())+",\"cols\":"+std::to_string(m.cols())+",\"calls\":"+std::to_string(obj.total)+"}"); return 0; });
  st.set_fpredict([&](std::vector<Candidate> &v,const dMat &m)
    { for (auto &q : v) q.set_fvalue(model(mod,q.get_x_dvec(),0));
      op("{\"op\":\"p\",\"p\":"+pts(v)+",\"rows\":"+std::to_string(m.rows())+",\"cols\":"+std::to_string(m.cols())+",\"calls\":"+std::to_string(obj.total)+"}"); return 0; });
  int rep=0; std::string xs=c.s("xs");
  auto show=[&](const char *e, const CMASolutions &s)
    {
      CMASolutions cs=s;
      std::string o=std::string("{\"e\":\"")+e+"\",\"niter\":"+std::to_string(s.niter())+",\"fevals\":"+std::to_string(s.fevals())+",\"status\":"+std::to_string(s.run_status())
        +",\"lambda\":"+std::to_string(p.lambda())+",\"plambda\":"+std::to_string(st.get_parameters().lambda())+",\"best\":"+jc(s.best_candidate(),true)+",\"bseen\":"+jc(s.get_best_seen_candidate(),true)
        +",\"pop\":"+pts(cs.candidates())+",\"tset\":"+pts(st.tset())+",\"l\":"+std::to_string(st.get_l())+",\"nsteps\":"+std::to_string(st.get_nsteps())+",\"exploit\":"+jb(st.get_exploit())
        +",\"terr\":"+jd(st.get_test_error())+",\"trerr\":"+jd(st.get_train_error())+Tune<S,GP>::get(st)
        +",\"csq\":["+std::to_string(s.csqinv().rows())+","+std::to_string(s.csqinv().cols())+","+std::to_string(s.sepcsqinv().rows())+"]"
        +",\"calls\":"+obj.drain(true)+",\"ops\":["+ops+"]}";
      ops.clear(); ev+=std::string(f?"":",")+o; f=false;
    };
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf=[&](const CMAParameters<GP> &pp,const CMASolutions &s)
    {
      ++rep;
      if (rep<=(int)xs.size()) st.set_exploit(xs[rep-1]=='1');
      show("rep",s);
      return rep>=c.i("maxrep",60)?1:0;
    };
  opt.set_progress_func(pf);
  opt.optimize();
  show("end",opt.get_solutions());
  return "\"ev\":["+ev+"]";
}
template <class S, class GP> std::string twice(const Cfg &c)
{
  std::string a=once<S,GP>(c);
  if (!c.i("twice",0)) return a;
  return a+",\"again\":"+jb(a==once<S,GP>(c));
}
template <template <class,class> class T, class U, class GP> std::string kind(const Cfg &c)
{
  if (c.s("surr")=="simple") return twice<SimpleSurrogateStrategy<T,U,GP>,GP>(c);
  return twice<ACMSurrogateStrategy<T,U,GP>,GP>(c);
}
template <class GP> std::string algo(const Cfg &c)
{
  int a=c.i("algo",0), u=a/3, s=a%3;
  if (u==0||u==2) return s==0?kind<CMAStrategy,CovarianceUpdate,GP>(c):s==1?kind<IPOPCMAStrategy,CovarianceUpdate,GP>(c):kind<BIPOPCMAStrategy,CovarianceUpdate,GP>(c);
  if (u==1||u==3) return s==0?kind<CMAStrategy,ACovarianceUpdate,GP>(c):s==1?kind<IPOPCMAStrategy,ACovarianceUpdate,GP>(c):kind<BIPOPCMAStrategy,ACovarianceUpdate,GP>(c);
  return s==0?kind<CMAStrategy,VDCMAUpdate,GP>(c):s==1?kind<IPOPCMAStrategy,VDCMAUpdate,GP>(c):kind<BIPOPCMAStrategy,VDCMAUpdate,GP>(c);
}
static std::string body(const Cfg &c)
{
  std::string gp=c.s("gp","none");
  if (gp=="none") return algo<GenoPheno<NoBoundStrategy>>(c);
  return algo<GenoPheno<pwqBoundStrategy,linScalingStrategy>>(c);
}
int main(int argc,char **argv) { return drive(argc,argv,body); }
