// Runs one optimization per config line and records it as a sequence of events
// (reports, ask / eval / tell, end) for validation against the TLA+ specification.
#ifndef VRUN_H
#define VRUN_H
#include "common.h"

static TransFunc tf_geno(const std::string &k)
{
  if (k=="shift") return [](const double *x,double *y,const int &n){ for (int i=0;i<n;i++) y[i]=x[i]-1.5; };
  if (k=="rev") return [](const double *x,double *y,const int &n){ for (int i=0;i<n;i++) y[i]=x[n-1-i]; };
  return [](const double *x,double *y,const int &n){ for (int i=0;i<n;i++) y[i]=x[i]/2.0; };
}
static TransFunc tf_pheno(const std::string &k)
{
  if (k=="shift") return [](const double *x,double *y,const int &n){ for (int i=0;i<n;i++) y[i]=x[i]+1.5; };
  if (k=="rev") return [](const double *x,double *y,const int &n){ for (int i=0;i<n;i++) y[i]=x[n-1-i]; };
  return [](const double *x,double *y,const int &n){ for (int i=0;i<n;i++) y[i]=x[i]*2.0; };
}

template <class GP> struct MkGP;
template <> struct MkGP<GenoPheno<NoBoundStrategy>>
{
  static GenoPheno<NoBoundStrategy> mk(const Cfg &c)
  {
    if (c.has("tf")) { TransFunc g=tf_geno(c.s("tf")), p=tf_pheno(c.s("tf")); return GenoPheno<NoBoundStrategy>(g,p); }
    return GenoPheno<NoBoundStrategy>();
  }
};
template <> struct MkGP<GenoPheno<pwqBoundStrategy>>
{
  static GenoPheno<pwqBoundStrategy> mk(const Cfg &c)
  {
    auto lb=c.dl("lb"), ub=c.dl("ub");
    if (c.has("tf")) { TransFunc g=tf_geno(c.s("tf")), p=tf_pheno(c.s("tf")); return GenoPheno<pwqBoundStrategy>(g,p,lb.data(),ub.data(),(int)lb.size()); }
    return GenoPheno<pwqBoundStrategy>(lb.data(),ub.data(),(int)lb.size());
  }
};
template <> struct MkGP<GenoPheno<NoBoundStrategy,linScalingStrategy>>
{
  static GenoPheno<NoBoundStrategy,linScalingStrategy> mk(const Cfg &c)
  {
    auto sc=c.dl("scaling"), sh=c.dl("shift");
    return GenoPheno<NoBoundStrategy,linScalingStrategy>(Eigen::Map<dVec>(sc.data(),sc.size()),Eigen::Map<dVec>(sh.data(),sh.size()));
  }
};
template <> struct MkGP<GenoPheno<pwqBoundStrategy,linScalingStrategy>>
{
  static GenoPheno<pwqBoundStrategy,linScalingStrategy> mk(const Cfg &c)
  {
    auto lb=c.dl("lb"), ub=c.dl("ub");
    if (c.has("scaling"))
      {
        auto sc=c.dl("scaling"), sh=c.dl("shift");
        return GenoPheno<pwqBoundStrategy,linScalingStrategy>(Eigen::Map<dVec>(sc.data(),sc.size()),Eigen::Map<dVec>(sh.data(),sh.size()),lb.data(),ub.data());
      }
    if (c.has("tf")) { TransFunc g=tf_geno(c.s("tf")), p=tf_pheno(c.s("tf")); return GenoPheno<pwqBoundStrategy,linScalingStrategy>(g,p,lb.data(),ub.data(),(int)lb.size()); }
    return GenoPheno<pwqBoundStrategy,linScalingStrategy>(lb.data(),ub.data(),(int)lb.size());
  }
};

// fplot=@ : a data file of this process, in the working directory
static std::string fp_path() { return "fp-"+std::to_string(getpid())+".dat"; }
static std::string fp_lines(const Cfg &c)
{
  if (c.s("fplot")!="@") return "";
  std::ifstream in(fp_path()); std::string l, o; bool first=true;
  while (std::getline(in,l))
    {
      std::istringstream is(l); std::vector<std::string> t; std::string w;
      while (is >> w) t.push_back(w);
      if (t.empty()) continue;
      bool head = t.size()>2 && t[2]=="/";
      if (!first) o+=","; first=false;
      o+="{\"head\":"+jb(head)+",\"v\":[";
      if (head) o+=std::to_string(atoll(t[0].c_str()))+","+std::to_string(atoll(t[1].c_str()));
      else for (size_t k=0;k<t.size();k++) { if (k) o+=","; char *e; double d=strtod(t[k].c_str(),&e); o+= *e ? std::string("\"?\"") : jd(d); }
      o+="]}";
    }
  in.close(); unlink(fp_path().c_str());
  return ",\"file\":["+o+"]";
}

// one setting; list-valued settings take their elements one by one
template <class GP> void apply(CMAParameters<GP> &p, const std::string &k, const std::string &v)
{
  int i=atoi(v.c_str()); double d=Cfg::num(v);
  if (k=="maxiter") p.set_max_iter(i);
  else if (k=="maxfevals") p.set_max_fevals(i);
  else if (k=="ftarget") p.set_ftarget(d);
  else if (k=="noftarget") p.reset_ftarget();
  else if (k=="ftol") p.set_ftolerance(d);
  else if (k=="xtol") p.set_xtolerance(d);
  else if (k=="maxhist") p.set_max_hist(i);
  else if (k=="noisy") { if (i) p.set_noisy(); }
  else if (k=="stralgo") p.set_str_algo(v);
  else if (k=="algo") p.set_algo(i);
  else if (k=="sep") { if (i) p.set_sep(); }
  else if (k=="vd") { if (i) p.set_vd(); }
  else if (k=="elitism") p.set_elitism(i);
  else if (k=="inifv") p.set_initial_fvalue(i);
  else if (k=="uh") p.set_uh(i);
  else if (k=="tpa") p.set_tpa(i);
  else if (k=="grad") p.set_gradient(i>0);
  else if (k=="edm") p.set_edm(i);
  else if (k=="mt") p.set_mt_feval(i);
  else if (k=="maximize") p.set_maximize(i);
  else if (k=="lazy") p.set_lazy_update(i);
  else if (k=="restarts") p.set_restarts(i);
  else if (k=="fixed") { auto kv=Cfg::split(v,':'); p.set_fixed_p(atoi(kv[0].c_str()),Cfg::num(kv[1])); }
  else if (k=="unfix") p.unset_fixed_p(i);
  else if (k=="crit") { auto kv=Cfg::split(v,':'); p.set_stopping_criteria(atoi(kv[0].c_str()),atoi(kv[1].c_str())); }
  else if (k=="fplot") p.set_fplot(v=="@" ? fp_path() : v);
  else if (k=="fullfplot") p.set_full_fplot(i);
  else if (k=="setseed") p.set_seed(i);
  else if (k=="setx0") { p.set_x0(d); }
  else if (k=="quiet") p.set_quiet(i);
}
template <class GP> void setters(CMAParameters<GP> &p, const Cfg &c)
{
  p.set_quiet(c.i("quiet",1));
  if (c.has("x0max")) { auto a=c.dl("x0"), b=c.dl("x0max"); p.set_x0(a,b); }
  if (c.has("prog")) // a sequence of settings, in the order given
    {
      for (auto &t : c.l("prog")) { auto kv=Cfg::split(t,'~'); apply(p,kv[0],kv.size()>1?kv[1]:std::string()); }
      return;
    }
  for (const char *k : {"maxiter","maxfevals","ftarget","ftol","xtol","maxhist","noisy","stralgo","algo","elitism","inifv","uh","tpa","grad","edm","mt","maximize","lazy","restarts"})
    if (c.has(k)) apply(p,k,c.s(k));
  for (const char *k : {"fixed","unfix","crit"})
    for (auto &t : c.l(k)) apply(p,k,t);
  for (const char *k : {"fplot","fullfplot","setseed"})
    if (c.has(k)) apply(p,k,c.s(k));
}
template <class GP> std::string getters(CMAParameters<GP> &p)
{
  return "\"lambda\":"+std::to_string(p.lambda())+",\"dim\":"+std::to_string(p.dim())+",\"algo\":"+std::to_string(p.get_algo())
    +",\"maxiter\":"+std::to_string(p.get_max_iter())+",\"maxfevals\":"+std::to_string(p.get_max_fevals())
    +",\"ftarget\":"+jd(p.get_ftarget())+",\"ftol\":"+jd(p.get_ftolerance())+",\"xtol\":"+jd(p.get_xtolerance())
    +",\"seed\":"+std::to_string(p.get_seed())+",\"sep\":"+jb(p.is_sep())+",\"vd\":"+jb(p.is_vd())
    +",\"grad\":"+jb(p.get_gradient())+",\"edm\":"+jb(p.get_edm())+",\"mt\":"+jb(p.get_mt_feval())+",\"maximize\":"+jb(p.get_maximize())
    +",\"uh\":"+jb(p.get_uh())+",\"tpa\":"+std::to_string(p.get_tpa())+",\"restarts\":"+std::to_string(p.get_restarts())
    +",\"lazy\":"+jb(p.get_lazy_update())+",\"sigma\":"+jd(p.get_sigma_init())+",\"quiet\":"+jb(p.quiet())
    +",\"x0min\":"+jv(p.get_x0min())+",\"x0max\":"+jv(p.get_x0max());
}

struct Rec
{
  std::string ev; bool first=true; bool X, D, R; Obj &obj;
  Rec(const Cfg &c, Obj &o):X(c.s("log").find('x')!=std::string::npos),D(c.s("log").find('d')!=std::string::npos),R(c.s("log").find('r')!=std::string::npos),obj(o) {}
  void add(const std::string &o) { if (!first) ev+=","; first=false; ev+=o; }
};

static std::string dist(const CMASolutions &s, bool vecs)
{
  std::string r = "\"sigma\":"+jd(s.sigma());
  if (!vecs) return r;
  r += ",\"xmean\":"+jv(s.xmean());
  r += ",\"cov\":"+jm_rows(s.cov())+",\"sepcov\":"+jmv(s.sepcov())+",\"fullcov\":"+jm_rows(s.full_cov());
  r += ",\"eigval\":"+jv(s.eigenvalues())+",\"eigvec\":"+jm_rows(s.eigenvectors());
  r += ",\"csqinv\":"+jm_rows(s.csqinv())+",\"sepcsqinv\":"+jmv(s.sepcsqinv());
  // the evolution paths are only shown in print
  {
    std::ostringstream os; os.precision(17); s.print(os,1); std::istringstream is(os.str()); std::string l;
    while (std::getline(is,l))
      for (const char *k : {"psigma=","pc="})
        if (l.compare(0,strlen(k),k)==0)
          {
            std::istringstream vs(l.substr(strlen(k))); std::vector<double> v; std::string t;
            while (vs >> t) v.push_back(Cfg::num(t));
            r += std::string(",\"")+(k[1]=='s'?"ps":"pc")+"\":"+jv(v.data(),(int)v.size());
          }
  }
  r += ",\"mineig\":"+jd(s.min_eigenv())+",\"maxeig\":"+jd(s.max_eigenv());
  r += ",\"ueig\":"+jb(s.updated_eigen());
  return r;
}
// derived reports of the distribution (log=r)
template <class P> std::string derived(const P &p, const CMASolutions &s)
{
  int n=(int)s.xmean().size();
  dMat c(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) c(i,j)=s.corr(i,j);
  dVec up=s.stds(p), er=s.errors(p);
  return ",\"stds\":"+jv(up)+",\"errors\":"+jv(er)+",\"corr\":"+jm_rows(s.corr())+",\"corrij\":"+jm_rows(c);
}
template <class P> std::string state(const P &p, const CMASolutions &s, Rec &r)
{
  std::string o = "\"niter\":"+std::to_string(s.niter())+",\"fevals\":"+std::to_string(s.fevals())+",\"nevals\":"+std::to_string(s.nevals())
    +",\"total\":"+std::to_string(r.obj.total)+",\"status\":"+std::to_string(s.run_status())+",\"lambda\":"+std::to_string(p.lambda())+",\"size\":"+std::to_string(s.size())
    +",\"best\":"+jc(s.best_candidate(),r.X)+",\"bseen\":"+jc(s.get_best_seen_candidate(),r.X)+",\"wseen\":"+jc(s.get_worst_seen_candidate(),r.X)
    +",\"calls\":"+r.obj.drain(r.X);
  o += ","+dist(s,r.D);
  if (r.R) o += derived(p,s);
  return o;
}
static std::string cands(CMASolutions &s, bool x)
{
  std::string o="[";
  auto &v=s.candidates();
  for (size_t i=0;i<v.size();i++)
    {
      if (i) o+=",";
      o+="{\"id\":"+std::to_string(v[i].get_id())+",\"f\":"+jd(v[i].get_fvalue());
      if (x) o+=",\"x\":"+jv(v[i].get_x_dvec());
      o+="}";
    }
  return o+"]";
}

template <class GP> std::string phenos(const CMAParameters<GP> &p, const CMASolutions &s)
{
  std::string o;
  auto pc=[&](const Candidate &c)->std::string { if (!c.get_x_size()) return "[]"; return jv(c.get_x_pheno_dvec(p)); };
  o += "\"pbest\":"+pc(s.best_candidate())+",\"pbseen\":"+pc(s.get_best_seen_candidate())+",\"pwseen\":"+pc(s.get_worst_seen_candidate());
  o += ",\"pmean\":"+(s.xmean().size()?jv(dVec(p.get_gp().pheno(dVec(s.xmean())))):std::string("[]"));
  return o;
}

// the verdict a status text starts with
static std::string tag(const std::string &m) { size_t k=m.find(']'); return m.empty()||m[0]!='['||k==std::string::npos ? std::string() : m.substr(0,k+1); }

template <class Strat, class GP> std::string run_strat(const Cfg &c, CMAParameters<GP> &p, Obj &obj, const CMASolutions *warm)
{
  Rec r(c,obj);
  FitFunc func = [&obj](const double *x,const int &n) { return obj(x,n); };
  typedef ESOptimizer<Strat,CMAParameters<GP>,CMASolutions> Opt;
  std::string init0 = "\"lambda0\":"+std::to_string(p.lambda())+",\"seed\":"+std::to_string(p.get_seed())+",\"get\":{"+getters(p)+"}";
  int nrep=0; int ustop=c.i("userstop",0); int plots=0;
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &cp, const CMASolutions &s)
    {
      ++nrep;
      int rc = (ustop && nrep>=ustop) ? stopcode(ustop) : 0;
      r.add("{\"e\":\"rep\",\"rc\":"+std::to_string(rc)+","+state(cp,s,r)+"}");
      return rc;
    };
  PlotFunc<CMAParameters<GP>,CMASolutions> plf = [&](const CMAParameters<GP> &, const CMASolutions &s, std::ofstream &) { ++plots; r.add("{\"e\":\"plot\",\"niter\":"+std::to_string(s.niter())+",\"fevals\":"+std::to_string(s.fevals())+"}"); return 0; };
  int ngrad=0; dVec lastg; std::vector<double> lastgx;
  std::string okind=obj.kind;
  GradFunc gf = [&](const double *x,const int &n)
    {
      ++ngrad; dVec g(n);
      for (int i=0;i<n;i++) g(i)= (okind=="elli"?2*std::pow(1e3,n>1?double(i)/(n-1):0.0)*x[i]:2*x[i])*obj.scale;
      lastg=g; lastgx.assign(x,x+n);
      return g;
    };
  std::string entry=c.s("entry","opt");
  std::string endst; int ret=0;
  Opt *optp = warm ? new Opt(func,p,*warm) : new Opt(func,p);
  Opt &opt = *optp;
  opt.set_progress_func(pf);
  if (c.i("plotfn",0)) opt.set_plot_func(plf);
  if (c.i("grad",0)==2) opt.set_gradient_func(gf);
  // poke=ITER:what:value[,...] : user-level modification of the public search state after tell
  struct Poke { int it; std::string w; double v; };
  std::vector<Poke> pokes; for (auto &t : c.l("poke")) { auto kv=Cfg::split(t,':'); pokes.push_back({atoi(kv[0].c_str()),kv[1],Cfg::num(kv[2])}); }
  // gate=ORDER/ORDER/... : completion orders forced on successive populations, e.g. 2.0.1/0.1.2
  std::vector<std::vector<int>> scheds; size_t nev=0;
  for (auto &t : Cfg::split(c.s("gate"),'/')) { std::vector<int> o; for (auto &k : Cfg::split(t,'.')) o.push_back(atoi(k.c_str())); scheds.push_back(o); }
  // log=z: the standard normal draws that the seeded generator supplies (fresh distribution per request)
  bool Z=c.s("log").find('z')!=std::string::npos; std::mt19937 zgen((std::mt19937::result_type)p.get_seed());
  auto draws=[&](int rows,int cols) { std::normal_distribution<double> nd; dMat m(rows,cols); for (int j=0;j<cols;j++) for (int i=0;i<rows;i++) m(i,j)=nd(zgen); return m; };
  AskFunc askf = [&]()
    {
      std::string pre = r.D ? dist(opt.get_solutions(),true) : std::string("\"sigma\":")+jd(opt.get_solutions().sigma());
      int g0=ngrad;
      std::string zs;
      if (Z)
        {
          int n=(int)opt.get_solutions().xmean().size();
          zs=",\"z\":"+jm_cols(draws(n,opt.get_parameters().lambda()));
          if (opt.get_parameters().get_tpa()==2 && opt.get_solutions().niter()>0) zs+=",\"rz\":"+jmv(draws(n,1));
        }
      dMat m = opt.ask();
      r.add("{\"e\":\"ask\",\"n\":"+std::to_string(m.cols())+",\"rows\":"+std::to_string(m.rows())+(r.X?",\"pop\":"+jm_cols(m):std::string())+",\"ngrad\":"+std::to_string(ngrad-g0)+(r.X&&ngrad>g0?",\"g\":"+jv(lastg)+",\"gx\":"+jv(lastgx.data(),(int)lastgx.size()):std::string())+",\"calls\":"+obj.drain(r.X)+","+pre+(r.D?",\"ueig_after\":"+jb(opt.get_solutions().updated_eigen()):std::string())+zs+"}");
      return m;
    };
  EvalFunc evalf = [&](const dMat &a, const dMat &b)
    {
      std::string extra = r.X?",\"ph\":"+jm_cols(b):std::string();
      if (!scheds.empty()) obj.gate.open(scheds[(nev++)%scheds.size()],b);
      if (c.i("phenoempty",0)) opt.eval(a); else opt.eval(a,b);
      if (!scheds.empty()) obj.gate.close();
      if (Z && opt.get_parameters().get_uh()) draws((int)a.rows(),(int)obj.log.size()-(int)a.cols());
      r.add("{\"e\":\"eval\",\"calls\":"+obj.drain(r.X)+",\"cand\":"+cands(opt.get_solutions(),r.X)+",\"fevals\":"+std::to_string(opt.get_solutions().fevals())+extra+"}");
    };
  TellFunc tellf = [&]()
    {
      opt.tell();
      CMASolutions &s=opt.get_solutions();
      std::string o="{\"e\":\"tell\",\"cand\":"+cands(s,r.X)+",\"best\":"+jc(s.best_candidate(),r.X)+",\"bseen\":"+jc(s.get_best_seen_candidate(),r.X)+",\"wseen\":"+jc(s.get_worst_seen_candidate(),r.X)+",\"calls\":"+obj.drain(r.X)+","+dist(s,r.D)+"}";
      r.add(o);
      for (auto &k : pokes) if (k.it==s.niter())
        {
          if (k.w=="sigma") s.set_sigma(k.v);
          else if (k.w=="xmean") s.set_xmean(dVec::Constant(s.xmean().size(),k.v));
          r.add("{\"e\":\"poke\",\"what\":"+js(k.w)+",\"v\":"+jd(k.v)+"}");
        }
    };
  if (entry=="opt") ret = opt.Strat::optimize(evalf,askf,tellf);
  else if (entry=="plain") ret = opt.optimize();
  else if (entry=="ext")
    {
      // the documented external loop
      while (!opt.stop())
        {
          dMat a=askf();
          evalf(a,opt.get_parameters().get_gp().pheno(a));
          tellf();
          opt.inc_iter();
        }
    }
  CMASolutions &s=opt.get_solutions();
  std::string o="{\"e\":\"end\",\"ret\":"+std::to_string(ret)+",\"msg\":"+js(tag(s.status_msg()))+",\"edm\":"+jd(s.edm())+","+state(opt.get_parameters(),s,r)
    +(r.X&&ngrad?",\"g\":"+jv(lastg):std::string())+",\"bsol\":"+jc(opt.best_solution(),r.X)+","+phenos(opt.get_parameters(),s)+"}";
  r.add(o);
  delete optp;
  return init0+",\"par\":{\"moved\":"+std::to_string(obj.moved)+",\"inflight\":"+std::to_string(obj.gate.maxin)+",\"late\":"+std::to_string(obj.gate.late)+"}"+fp_lines(c)+",\"ev\":["+r.ev+"]";
}

// through the cmaes() entry point: only calls, reports and the result are seen
template <class GP> std::string run_cmaes(const Cfg &c, CMAParameters<GP> &p, Obj &obj, const CMASolutions *warm)
{
  Rec r(c,obj);
  FitFunc func = [&obj](const double *x,const int &n) { return obj(x,n); };
  int nrep=0; int ustop=c.i("userstop",0);
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &cp, const CMASolutions &s)
    {
      ++nrep; int rc=(ustop && nrep>=ustop)?stopcode(ustop):0;
      r.add("{\"e\":\"rep\",\"rc\":"+std::to_string(rc)+","+state(cp,s,r)+"}");
      return rc;
    };
  std::string init0 = "\"lambda0\":"+std::to_string(p.lambda())+",\"seed\":"+std::to_string(p.get_seed())+",\"get\":{"+getters(p)+"}";
  GradFunc gf = nullptr; std::string okind=obj.kind;
  if (c.i("grad",0)==2) gf = [&](const double *x,const int &n)
    {
      dVec g(n);
      for (int i=0;i<n;i++) g(i)= (okind=="elli"?2*std::pow(1e3,n>1?double(i)/(n-1):0.0)*x[i]:2*x[i])*obj.scale;
      return g;
    };
  PlotFunc<CMAParameters<GP>,CMASolutions> plf = [&](const CMAParameters<GP> &, const CMASolutions &s, std::ofstream &) { r.add("{\"e\":\"plot\",\"niter\":"+std::to_string(s.niter())+",\"fevals\":"+std::to_string(s.fevals())+"}"); return 0; };
  CMASolutions none; const CMASolutions &from = warm ? *warm : none;
  CMASolutions s = c.i("plotfn",0) ? cmaes<GP>(func,p,pf,gf,from,plf) : cmaes<GP>(func,p,pf,gf,from);
  int ret = s.run_status()>=0?0:-1;
  std::string o="{\"e\":\"end\",\"ret\":"+std::to_string(ret)+",\"msg\":"+js(tag(s.status_msg()))+",\"edm\":"+jd(s.edm())+","+state(p,s,r)+",\"bsol\":"+jc(s.best_candidate(),r.X)+","+phenos(p,s)+",\"sep\":"+jb(p.is_sep())+",\"vd\":"+jb(p.is_vd())+"}";
  r.add(o);
  return init0+fp_lines(c)+",\"ev\":["+r.ev+"]";
}

template <class GP> std::string run_gp(const Cfg &c);
// earlier runs in the same process: pre=K throw-away optimizations of other kinds
static void pre_runs(int k, int seed)
{
  for (int q=0;q<k;q++)
    {
      std::vector<double> x(2+q%5,1.0);
      CMAParameters<> p(x,0.3,5+q,seed+q*7+1);
      p.set_quiet(true); p.set_max_iter(3+q); p.set_restarts(2);
      p.set_algo((q*5+k)%12); if (q%3==1) p.set_uh(true); if (q%3==2) p.set_tpa(2);
      FitFunc f=[](const double *y,const int &n) { double s=0; for (int i=0;i<n;i++) s+=y[i]*y[i]*(i+1); return s; };
      cmaes<>(f,p);
    }
}
template <class GP> std::string run_gp(const Cfg &c)
{
  if (c.i("twice",0)) { Cfg c0=c; c0.m.erase("twice"); run_gp<GP>(c0); } // the same optimization before, in this process
  pre_runs(c.i("pre",0),c.i("preseed",3));
  auto x0=c.dl("x0");
  Obj obj(c);
  double sigma=c.d("sigma",0.5); int lambda=c.i("lambda",-1); uint64_t seed=(uint64_t)c.i("seed",1);
  CMAParameters<GP> *pp;
  if (c.has("vsigma"))
    {
      auto vs=c.dl("vsigma"), lb=c.dl("lb"), ub=c.dl("ub");
      pp = new CMAParameters<GP>(x0,vs,lambda,lb,ub,seed);
    }
  else
    {
      GP gp=MkGP<GP>::mk(c);
      if (c.i("ptrctor",0)) pp = new CMAParameters<GP>((int)x0.size(),x0.data(),sigma,lambda,seed,gp);
      else pp = new CMAParameters<GP>(x0,sigma,lambda,seed,gp);
    }
  CMAParameters<GP> &p=*pp;
  setters(p,c);
  int algo=p.get_algo();
  // warm=key~val/key~val... : an earlier optimization (same transform), whose solution this one starts from
  CMASolutions warm; const CMASolutions *w=nullptr; std::string wst;
  if (c.has("warm"))
    {
      Cfg c1=c; c1.m.erase("warm");
      for (const char *k : {"prog","gate","userstop","maximize","crit","maxiter","maxfevals","ftarget","elitism","uh","tpa","grad","edm","mt","lazy","inifv","noisy","restarts","maxhist","nanat","mono","fscale","foffset"}) c1.m.erase(k);
      for (auto &t : c.l("warm",'/')) { auto kv=Cfg::split(t,'~'); c1.m[kv[0]]=kv.size()>1?kv[1]:""; }
      Obj obj1(c1);
      FitFunc func1 = [&obj1](const double *x,const int &n) { return obj1(x,n); };
      GP gp1=MkGP<GP>::mk(c1);
      CMAParameters<GP> p1(x0,c1.d("sigma",0.5),c1.i("lambda",-1),(uint64_t)c1.i("seed",1),gp1);
      setters(p1,c1);
      warm=cmaes<GP>(func1,p1);
      w=&warm;
      wst = "\"warm\":{\"bestx\":"+jv(warm.best_candidate().get_x_dvec())+",\"bseen\":"+jc(warm.get_best_seen_candidate(),true)+",\"wseen\":"+jc(warm.get_worst_seen_candidate(),true)+","+dist(warm,true)+"},";
    }
  std::string wst2;
  auto fin=[&](const std::string &res)
    {
      if (!w) return res;
      return wst+"\"warm2\":{\"bestx\":"+jv(warm.best_candidate().get_x_dvec())+",\"bseen\":"+jc(warm.get_best_seen_candidate(),true)+",\"wseen\":"+jc(warm.get_worst_seen_candidate(),true)+","+dist(warm,true)+"},"+res;
    };
  if (c.s("entry","opt")=="cmaes") return fin(run_cmaes<GP>(c,p,obj,w));
  if (algo>=6 && algo<=11 && !p.is_sep()) p.set_sep();
  if (algo>=12 && !p.is_vd()) p.set_vd();
  if (c.i("setsep",0)) p.set_sep();
  switch(algo)
    {
    case 0: case 6: return fin(run_strat<CMAStrategy<CovarianceUpdate,GP>,GP>(c,p,obj,w));
    case 1: case 7: return fin(run_strat<IPOPCMAStrategy<CovarianceUpdate,GP>,GP>(c,p,obj,w));
    case 2: case 8: return fin(run_strat<BIPOPCMAStrategy<CovarianceUpdate,GP>,GP>(c,p,obj,w));
    case 3: case 9: return fin(run_strat<CMAStrategy<ACovarianceUpdate,GP>,GP>(c,p,obj,w));
    case 4: case 10: return fin(run_strat<IPOPCMAStrategy<ACovarianceUpdate,GP>,GP>(c,p,obj,w));
    case 5: case 11: return fin(run_strat<BIPOPCMAStrategy<ACovarianceUpdate,GP>,GP>(c,p,obj,w));
    case 12: return fin(run_strat<CMAStrategy<VDCMAUpdate,GP>,GP>(c,p,obj,w));
    case 13: return fin(run_strat<IPOPCMAStrategy<VDCMAUpdate,GP>,GP>(c,p,obj,w));
    case 14: return fin(run_strat<BIPOPCMAStrategy<VDCMAUpdate,GP>,GP>(c,p,obj,w));
    }
  return "\"crash\":\"unknown algo\"";
}

#endif
