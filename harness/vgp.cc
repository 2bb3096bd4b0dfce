// Genotype / phenotype transforms, and removal of dimensions: evaluates them on given vectors.
#include "vrun.h"
#include <libcmaes/errstats.h>

static std::vector<dVec> vecs(const Cfg &c, const std::string &k)
{
  std::vector<dVec> r;
  for (auto &t : c.l(k,'/')) { std::vector<double> v; for (auto &q : Cfg::split(t,',')) v.push_back(Cfg::num(q)); r.push_back(Eigen::Map<dVec>(v.data(),v.size())); }
  return r;
}
static dMat cols(const std::vector<dVec> &v)
{
  dMat m(v.empty()?0:v[0].size(),v.size()); for (size_t i=0;i<v.size();i++) m.col(i)=v[i]; return m;
}
template <class GP> struct GenoM { static dMat g(const GP &gp,const dMat &m) { return gp.geno(m); } };
// no matrix form of geno without bounds
template <> struct GenoM<GenoPheno<NoBoundStrategy>> { static dMat g(const GenoPheno<NoBoundStrategy> &gp,const dMat &m) { dMat r=m; for (int i=0;i<m.cols();i++) r.col(i)=gp.geno(dVec(m.col(i))); return r; } };
template <> struct GenoM<GenoPheno<NoBoundStrategy,linScalingStrategy>> { static dMat g(const GenoPheno<NoBoundStrategy,linScalingStrategy> &gp,const dMat &m) { dMat r=m; for (int i=0;i<m.cols();i++) r.col(i)=gp.geno(dVec(m.col(i))); return r; } };

// neither bounds nor scaling given
template <class GP> struct NoLimits
{
  static GP mk(const Cfg &c)
  {
    if (c.has("tf")) { TransFunc g=tf_geno(c.s("tf")), p=tf_pheno(c.s("tf")); return GP(g,p); }
    return GP();
  }
};
template <class GP> struct MkGP2 { static GP mk(const Cfg &c) { return MkGP<GP>::mk(c); } };
template <> struct MkGP2<GenoPheno<NoBoundStrategy,linScalingStrategy>>
{
  typedef GenoPheno<NoBoundStrategy,linScalingStrategy> GP;
  static GP mk(const Cfg &c)
  {
    if (c.has("scaling")) return MkGP<GP>::mk(c);
    if (c.has("lb"))
      {
        auto lb=c.dl("lb"), ub=c.dl("ub");
        if (c.has("tf")) { TransFunc g=tf_geno(c.s("tf")), p=tf_pheno(c.s("tf")); return GP(g,p,lb.data(),ub.data(),(int)lb.size()); }
        return GP(lb.data(),ub.data(),(int)lb.size());
      }
    if (c.has("tf")) { TransFunc g=tf_geno(c.s("tf")), p=tf_pheno(c.s("tf")); return GP(g,p); }
    return GP();
  }
};
template <> struct MkGP2<GenoPheno<pwqBoundStrategy,linScalingStrategy>>
{
  typedef GenoPheno<pwqBoundStrategy,linScalingStrategy> GP;
  static GP mk(const Cfg &c)
  {
    if (c.has("scaling") && !c.has("lb"))
      {
        auto sc=c.dl("scaling"), sh=c.dl("shift");
        return GP(Eigen::Map<dVec>(sc.data(),sc.size()),Eigen::Map<dVec>(sh.data(),sh.size()));
      }
    return c.has("lb") ? MkGP<GP>::mk(c) : NoLimits<GP>::mk(c);
  }
};
template <> struct MkGP2<GenoPheno<pwqBoundStrategy>>
{
  typedef GenoPheno<pwqBoundStrategy> GP;
  static GP mk(const Cfg &c) { return c.has("lb") ? MkGP<GP>::mk(c) : NoLimits<GP>::mk(c); }
};

template <class GP> std::string evalgp(const GP &gp, const std::vector<dVec> &xs, const std::vector<dVec> &ys, int bounded)
{
  std::string o="\"x\":[";
  dMat xm=cols(xs), pm; if (xs.size()) pm=gp.pheno(xm);
  for (size_t i=0;i<xs.size();i++)
    {
      dVec p=gp.pheno(xs[i]), b=gp.geno(p), a=gp.pheno(b);
      if (i) o+=",";
      o+="{\"x\":"+jv(xs[i])+",\"ph\":"+jv(p)+",\"phm\":"+jv(dVec(pm.col(i)))+",\"back\":"+jv(b)+",\"again\":"+jv(a)+"}";
    }
  o+="],\"y\":[";
  dMat ym=cols(ys), gm; if (ys.size()) gm=GenoM<GP>::g(gp,ym);
  for (size_t i=0;i<ys.size();i++)
    {
      dVec g=gp.geno(ys[i]), p=gp.pheno(g);
      if (i) o+=",";
      o+="{\"y\":"+jv(ys[i])+",\"g\":"+jv(g)+",\"gm\":"+jv(dVec(gm.col(i)))+",\"ph\":"+jv(p)+"}";
    }
  o+="],\"bnd\":[";
  for (int k=0;k<bounded;k++)
    {
      auto b=gp.get_boundstrategy();
      o+=std::string(k?",":"")+"["+jd(b.getLBound(k))+","+jd(b.getUBound(k))+","+jd(b.getPhenoLBound(k))+","+jd(b.getPhenoUBound(k))+"]";
    }
  return o+"]";
}
template <class GP> std::string op_gp(const Cfg &c)
{
  GP gp=MkGP2<GP>::mk(c);
  auto xs=vecs(c,"xs"), ys=vecs(c,"ys");
  int dim=(int)(xs.empty()?ys[0].size():xs[0].size());
  int nb=c.has("lb")&&c.s("gp")!="lin"?dim:0;
  std::string o=evalgp(gp,xs,ys,nb);
  if (c.has("remove"))
    {
      std::vector<int> k; for (auto &t : c.l("remove")) k.push_back(atoi(t.c_str()));
      GP g2=gp; g2.remove_dimensions(k);
      auto red=[&](std::vector<dVec> v) { for (auto &x : v) { dVec y(x.size()-k.size()); int q=0; for (int i=0;i<x.size();i++) if (std::find(k.begin(),k.end(),i)==k.end()) y[q++]=x[i]; x=y; } return v; };
      o+=",\"red\":{"+evalgp(g2,red(xs),red(ys),nb?dim-(int)k.size():0)+"}";
      // the original is not affected
      o+=",\"same\":"+std::string(evalgp(gp,xs,ys,nb)==o.substr(0,evalgp(gp,xs,ys,nb).size())?"true":"false");
    }
  return o;
}
static std::string op_vec(const Cfg &c)
{
  // prog: rK = remove element / row and column K, aK:V = insert V at K
  auto x0=c.dl("x0"); dVec v=Eigen::Map<dVec>(x0.data(),x0.size());
  int n=(int)v.size(); dMat m(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) m(i,j)=100*i+j;
  std::string o="\"steps\":[{\"v\":"+jv(v)+",\"m\":"+jm_rows(m)+"}";
  for (auto &t : c.l("prog"))
    {
      int k=atoi(t.c_str()+1);
      if (t[0]=='r') removeElement(v,k);
      else if (t[0]=='R') removeRow(m,k);
      else if (t[0]=='C') removeColumn(m,k);
      else { auto kv=Cfg::split(t.substr(1),':'); addElement(v,atoi(kv[0].c_str()),Cfg::num(kv[1])); }
      o+=",{\"v\":"+jv(v)+",\"m\":"+jm_rows(m)+"}";
    }
  return o+"]";
}
// a solution and a parameter set from which dimensions have been removed
static std::string op_fix(const Cfg &c)
{
  auto x0=c.dl("x0"); Obj obj(c);
  FitFunc func=[&obj](const double *x,const int &n) { return obj(x,n); };
  CMAParameters<> p(x0,c.d("sigma",0.5),c.i("lambda",-1),(uint64_t)c.i("seed",1)); setters(p,c);
  CMASolutions s=cmaes<>(func,p);
  auto show=[&](CMASolutions &q)
    {
      std::string o="{\"xmean\":"+jv(q.xmean())+",\"cov\":"+jm_rows(q.cov())+",\"csqinv\":"+jm_rows(q.csqinv())+",\"niter\":"+std::to_string(q.niter())+",\"fevals\":"+std::to_string(q.fevals())+",\"status\":"+std::to_string(q.run_status())+",\"sigma\":"+jd(q.sigma())+",\"cand\":[";
      bool f=true; for (auto &x : q.candidates()) { o+=std::string(f?"":",")+jv(x.get_x_dvec()); f=false; }
      return o+"]}";
    };
  std::string o="\"before\":"+show(s);
  std::vector<int> ks; for (auto &t : c.l("remove")) ks.push_back(atoi(t.c_str()));
  CMAParameters<> q=p;
  for (int k : ks) { s.reset_as_fixed(k); q.reset_as_fixed(k); }
  o+=",\"after\":"+show(s)+",\"dim\":"+std::to_string(q.dim())+",\"x0min\":"+jv(q.get_x0min())+",\"x0max\":"+jv(q.get_x0max());
  // the remaining problem, with the reduced parameters and with new ones
  auto run=[&](CMAParameters<> &pp)
    {
      obj.drain(false); 
      CMASolutions r=cmaes<>(func,pp);
      return "{\"calls\":"+obj.drain(true)+",\"best\":"+jc(r.best_candidate(),true)+",\"niter\":"+std::to_string(r.niter())+"}";
    };
  std::vector<double> rx; { dVec m=q.get_x0min(); rx.assign(m.data(),m.data()+m.size()); }
  CMAParameters<> fresh(rx,c.d("sigma",0.5),p.lambda(),(uint64_t)c.i("seed",1)); setters(fresh,c);
  o+=",\"r1\":"+run(q)+",\"r2\":"+run(fresh);
  return o;
}
// minimization with some parameters held
template <class GP> std::string op_vpk(const Cfg &c)
{
  auto x0=c.dl("x0"); Obj obj(c);
  FitFunc func=[&obj](const double *x,const int &n) { return obj(x,n); };
  GP gp=MkGP2<GP>::mk(c);
  CMAParameters<GP> p(x0,c.d("sigma",0.5),c.i("lambda",-1),(uint64_t)c.i("seed",1),gp); setters(p,c);
  CMASolutions s=cmaes<GP>(func,p);
  obj.drain(false);
  std::vector<int> k; for (auto &t : c.l("k")) k.push_back(atoi(t.c_str()));
  std::vector<double> vk=c.dl("vk");
  dVec x=s.best_candidate().get_x_dvec();
  bool ph=c.i("pheno",1);
  CMASolutions r=errstats<GP>::optimize_vpk(func,p,s,k,vk,ph?dVec(gp.pheno(x)):x,ph,ph);
  return "\"best\":"+jc(r.best_candidate(),true)+",\"pbest\":"+jv(dVec(gp.pheno(dVec(r.best_candidate().get_x_dvec()))))+",\"fevals\":"+std::to_string(r.fevals())+",\"calls\":"+obj.drain(true);
}
template <class GP> std::string one(const Cfg &c) { return c.s("op")=="vpk" ? op_vpk<GP>(c) : op_gp<GP>(c); }
static std::string body(const Cfg &c)
{
  std::string op=c.s("op"), gp=c.s("gp","none");
  if (op=="vec") return op_vec(c);
  if (op=="fix") return op_fix(c);
  if (gp=="none") return one<GenoPheno<NoBoundStrategy>>(c);
  if (gp=="pwq") return one<GenoPheno<pwqBoundStrategy>>(c);
  if (gp=="lin") return one<GenoPheno<NoBoundStrategy,linScalingStrategy>>(c);
  return one<GenoPheno<pwqBoundStrategy,linScalingStrategy>>(c);
}
int main(int argc,char **argv) { return drive(argc,argv,body); }
