// Profile likelihood around the result of a search: everything stored, and the calls behind it.
#include "vrun.h"
#include <libcmaes/errstats.h>

template <class GP> static std::string state(CMASolutions &s, const CMAParameters<GP> &p)
{
  std::string o="{\"best\":"+jc(s.best_candidate(),true)+",\"bseen\":"+jc(s.get_best_seen_candidate(),true)+",\"xmean\":"+jv(s.xmean())+",\"cov\":"+jm_rows(s.cov())+",\"sepcov\":"+jm_rows(s.sepcov())
    +",\"sigma\":"+jd(s.sigma())+",\"niter\":"+std::to_string(s.niter())+",\"fevals\":"+std::to_string(s.fevals())+",\"status\":"+std::to_string(s.run_status())
    +",\"nh\":"+std::to_string(s.candidates().size())
    +",\"x0\":"+jv(p.get_x0min())+",\"dim\":"+std::to_string(p.dim())+",\"lambda\":"+std::to_string(p.lambda())+",\"seed\":"+std::to_string(p.get_seed())+",\"algo\":"+std::to_string(p.get_algo());
  return o+"}";
}
static std::string show(const pli &l)
{
  return "{\"k\":"+std::to_string(l.get_k())+",\"n\":"+std::to_string(l.get_samplesize())+",\"f\":"+jv(l.get_fvaluem())+",\"x\":"+jm_rows(l.get_xm())
    +",\"min\":"+jd(l.get_min())+",\"max\":"+jd(l.get_max())+",\"emin\":"+jd(l.get_err_min())+",\"emax\":"+jd(l.get_err_max())+"}";
}
// A contour: its points, for each the calls made there, the intervals it rests on, and whether a call left the bounds.
template <class GP> std::string contours(const Cfg &c)
{
  auto x0=c.dl("x0"); Obj obj(c);
  FitFunc func=[&obj](const double *x,const int &n) { return obj(x,n); };
  GP gp=MkGP<GP>::mk(c);
  CMAParameters<GP> p(x0,c.d("sigma",0.5),c.i("lambda",-1),(uint64_t)c.i("seed",1),gp); setters(p,c);
  CMASolutions s=cmaes<GP>(func,p);
  std::vector<int> pr; for (auto &t : c.l("contour")) pr.push_back(atoi(t.c_str()));
  int px=pr.at(0), py=pr.at(1); double fup=c.d("fup",0.1), delta=c.d("delta",0.1);
  std::vector<pli> kept; for (auto &t : c.l("first")) kept.push_back(errstats<GP>::profile_likelihood(func,p,s,atoi(t.c_str()),false,c.i("n",5),fup,delta,c.i("plmax",200)));
  obj.drain(false);
  std::string st=state(s,p);
  contour ct=errstats<GP>::contour_points(func,px,py,c.i("np",4),fup,p,s,delta,c.i("plmax",200));
  std::string st2=state(s,p);
  pli lx,ly; bool hx=s.get_pli(px,lx), hy=s.get_pli(py,ly);
  dVec pb=gp.pheno(dVec(s.best_candidate().get_x_dvec()));
  std::string o="\"before\":"+st+",\"after\":"+st2+",\"hx\":"+jb(hx)+",\"hy\":"+jb(hy)+",\"lx\":"+(hx?show(lx):"{}")+",\"ly\":"+(hy?show(ly):"{}")+",\"kept\":[";
  for (size_t i=0;i<kept.size();i++) o+=std::string(i?",":"")+show(kept[i]);
  o+="],\"pbest\":"+jv(pb)+",\"pts\":[";
  if (c.i("maximize",0)) for (auto &l : obj.log) l.f=-l.f;
  for (size_t i=0;i<ct._points.size();i++)
    {
      double x=ct._points[i].first, y=ct._points[i].second, tol=1e-8*(1+pb.cwiseAbs().maxCoeff()+std::fabs(x)+std::fabs(y));
      long nx=0, ny=0, nb=0; double f=std::numeric_limits<double>::quiet_NaN();
      for (auto &l : obj.log)
        {
          bool a=std::fabs(l.x[px]-x)<=tol, b=std::fabs(l.x[py]-y)<=tol;
          nx+=a; ny+=b; nb+=a&&b; if (a&&b && !(f<=l.f)) f=l.f;
        }
      o+=std::string(i?",":"")+"{\"x\":"+jd(x)+",\"y\":"+jd(y)+",\"nx\":"+std::to_string(nx)+",\"ny\":"+std::to_string(ny)+",\"nb\":"+std::to_string(nb)+",\"f\":"+jd(f)+"}";
    }
  dVec mn=pb, mx=pb; for (auto &l : obj.log) for (int q=0;q<pb.size();q++) { mn[q]=std::min(mn[q],l.x[q]); mx[q]=std::max(mx[q],l.x[q]); }
  return o+"],\"calls\":"+std::to_string(obj.log.size())+",\"cmin\":"+jv(mn)+",\"cmax\":"+jv(mx);
}
template <class GP> std::string run(const Cfg &c)
{
  if (c.has("contour")) return contours<GP>(c);
  auto x0=c.dl("x0"); Obj obj(c);
  FitFunc func=[&obj](const double *x,const int &n) { return obj(x,n); };
  GP gp=MkGP<GP>::mk(c);
  CMAParameters<GP> p(x0,c.d("sigma",0.5),c.i("lambda",-1),(uint64_t)c.i("seed",1),gp); setters(p,c);
  CMASolutions s=cmaes<GP>(func,p);
  std::string o="\"pl\":[", st=state(s,p);
  bool first=true;
  for (auto &t : c.l("k"))
    {
      int k=atoi(t.c_str());
      if (c.i("pre",0)) // an interval of another level is there already
        { errstats<GP>::profile_likelihood(func,p,s,k,false,c.i("n",5)+1,c.d("fup",0.1)*3,c.d("delta",0.1),c.i("plmax",200)); st=state(s,p); }
      obj.drain(false);
      bool curve=c.i("curve",0); int n=c.i("n",5); double fup=c.d("fup",0.1), delta=c.d("delta",0.1);
      pli le=errstats<GP>::profile_likelihood(func,p,s,k,curve,n,fup,delta,c.i("plmax",200));
      pli rec; bool has=s.get_pli(k,rec);
      std::string st2=state(s,p);
      o+=std::string(first?"":",")+"{\"le\":"+show(le)+",\"has\":"+jb(has)+",\"rec\":"+(has?show(rec):"{}")+",\"before\":"+st+",\"after\":"+st2
        +",\"pbest\":"+jv(dVec(gp.pheno(dVec(s.best_candidate().get_x_dvec()))))+",\"blocks\":[";
      first=false; st=st2;
      // maximal sequences of calls that share the value of parameter k
      std::vector<int> blk; int nb=-1; std::vector<int> sz; std::vector<double> bx, bm;
      for (size_t i=0;i<obj.log.size();i++)
        {
          if (c.i("maximize",0)) obj.log[i].f=-obj.log[i].f; // candidates hold -f
          double v=obj.log[i].x[k];
          if (i==0 || v!=obj.log[i-1].x[k]) { ++nb; sz.push_back(0); bx.push_back(v); bm.push_back(obj.log[i].f); }
          ++sz[nb]; bm[nb]=std::min(bm[nb],obj.log[i].f); blk.push_back(nb);
        }
      std::vector<bool> used(nb+1,false);
      dVec f=le.get_fvaluem(); dMat xm=le.get_xm();
      std::string hits="[";
      for (int r=0;r<f.size();r++)
        {
          hits+=std::string(r?",":"")+"["; int cnt=0;
          // the calls that gave this value, nearest points first
          std::vector<std::pair<double,size_t>> cand;
          for (size_t i=0;i<obj.log.size();i++)
            if (obj.log[i].f==f[r] || (std::isnan(obj.log[i].f)&&std::isnan(f[r])))
              { double d=0; for (int q=0;q<xm.cols();q++) d=std::max(d,std::fabs(obj.log[i].x[q]-xm(r,q))); if (std::isnan(d)) d=1e308; cand.push_back(std::make_pair(d,i)); }
          std::sort(cand.begin(),cand.end());
          for (auto &h : cand)
            {
              if (cnt>=3) break;
              hits+=std::string(cnt?",":"")+"{\"x\":"+jv(obj.log[h.second].x.data(),(int)obj.log[h.second].x.size())+",\"b\":"+std::to_string(blk[h.second])+"}"; ++cnt; used[blk[h.second]]=true;
            }
          hits+="]";
        }
      hits+="]";
      bool fb=true;
      for (int b=0;b<=nb;b++) if (used[b]) { o+=std::string(fb?"":",")+"{\"id\":"+std::to_string(b)+",\"n\":"+std::to_string(sz[b])+",\"xk\":"+jd(bx[b])+",\"min\":"+jd(bm[b])+"}"; fb=false; }
      o+="],\"hits\":"+hits+",\"calls\":"+std::to_string(obj.log.size())+",\"nopt\":"+std::to_string(std::count_if(sz.begin(),sz.end(),[](int q){ return q>=4; }))+"}";
    }
  return o+"]";
}
static std::string body(const Cfg &c)
{
  std::string gp=c.s("gp","none");
  if (gp=="none") return run<GenoPheno<NoBoundStrategy>>(c);
  if (gp=="pwq") return run<GenoPheno<pwqBoundStrategy>>(c);
  if (gp=="lin") return run<GenoPheno<NoBoundStrategy,linScalingStrategy>>(c);
  return run<GenoPheno<pwqBoundStrategy,linScalingStrategy>>(c);
}
int main(int argc,char **argv) { return drive(argc,argv,body); }
