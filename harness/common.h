// Shared helpers of the conformance drivers: config lines, JSON output, recorded objective.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <libcmaes/cmaes.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <thread>
#include <chrono>
#include <condition_variable>

using namespace libcmaes;

// ---------- configuration: "key=value key=value ..." ----------
struct Cfg
{
  std::map<std::string,std::string> m;
  explicit Cfg(const std::string &line)
  {
    std::istringstream is(line);
    std::string tok;
    while (is >> tok)
      {
        size_t p = tok.find('=');
        if (p == std::string::npos) continue;
        m[tok.substr(0,p)] = tok.substr(p+1);
      }
  }
  bool has(const std::string &k) const { return m.find(k) != m.end(); }
  std::string s(const std::string &k, const std::string &d="") const { auto i=m.find(k); return i==m.end()?d:i->second; }
  int i(const std::string &k, int d=0) const { auto it=m.find(k); return it==m.end()?d:atoi(it->second.c_str()); }
  static double num(const std::string &v) { return strtod(v.c_str(),nullptr); }
  double d(const std::string &k, double df=0.0) const { auto it=m.find(k); return it==m.end()?df:num(it->second); }
  static std::vector<std::string> split(const std::string &v, char c)
  {
    std::vector<std::string> r; std::string cur;
    for (char ch : v) { if (ch==c) { r.push_back(cur); cur.clear(); } else cur.push_back(ch); }
    if (!v.empty()) r.push_back(cur);
    return r;
  }
  std::vector<std::string> l(const std::string &k, char c=',') const { return split(s(k),c); }
  std::vector<double> dl(const std::string &k) const { std::vector<double> r; for (auto &t : l(k)) r.push_back(num(t)); return r; }
};

// ---------- JSON ----------
inline std::string jd(double x)
{
  if (std::isnan(x)) return "\"NaN\"";
  if (std::isinf(x)) return x > 0 ? "\"Infinity\"" : "\"-Infinity\"";
  if (x==0) x=0; // no negative zero
  char b[64]; snprintf(b,sizeof b,"\"%.17g\"",x); return b;
}
inline std::string jv(const double *x, int n)
{
  std::string r="["; for (int i=0;i<n;i++) { if (i) r+=","; r+=jd(x[i]); } return r+"]";
}
inline std::string jv(const dVec &v) { return jv(v.data(),(int)v.size()); }
inline std::string jmv(const dMat &m) { return jv(m.data(),(int)m.size()); }
inline std::string jm_rows(const dMat &m)
{
  std::string r="["; for (int i=0;i<m.rows();i++) { if (i) r+=","; r+="["; for (int j=0;j<m.cols();j++) { if (j) r+=","; r+=jd(m(i,j)); } r+="]"; } return r+"]";
}
inline std::string jm_cols(const dMat &m)
{
  std::string r="["; for (int j=0;j<m.cols();j++) { if (j) r+=","; r+="["; for (int i=0;i<m.rows();i++) { if (i) r+=","; r+=jd(m(i,j)); } r+="]"; } return r+"]";
}
inline std::string js(const std::string &s)
{
  std::string r="\""; for (char c : s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if ((unsigned char)c<32) r+=' '; else r+=c; } return r+"\"";
}
// what a progress function that ends the search returns: any value but zero
inline int stopcode(int ustop) { static const int k[] = {1,-1,2,-1000,256}; return k[ustop%5]; }
inline std::string jb(bool b) { return b?"true":"false"; }
inline std::string jc(const Candidate &c, bool withx)
{
  // a candidate that was never set has no x
  std::string r = "{\"f\":" + jd(c.get_x_size()?c.get_fvalue():std::numeric_limits<double>::quiet_NaN()) + ",\"set\":" + jb(c.get_x_size()>0);
  if (withx) { dVec x = c.get_x_dvec(); r += ",\"x\":" + jv(x); }
  return r+"}";
}

// ---------- gate: forces the completion order of concurrent evaluations ----------
// sched: candidate indices in the order in which their evaluations are to complete; an
// evaluation whose turn does not come within the time limit (the order is not possible
// with the threads available) goes on without it.
struct Gate
{
  std::vector<int> sched; std::map<std::vector<double>,int> idx; size_t pos=0; bool on=false; int inflight=0, maxin=0, late=0;
  std::mutex m; std::condition_variable cv;
  void open(const std::vector<int> &s, const dMat &pts)
  {
    std::lock_guard<std::mutex> g(m);
    sched=s; pos=0; idx.clear(); on=true;
    for (int j=0;j<pts.cols();j++) idx[std::vector<double>(pts.col(j).data(),pts.col(j).data()+pts.rows())]=j;
  }
  void close() { std::lock_guard<std::mutex> g(m); on=false; cv.notify_all(); }
  void wait(const std::vector<double> &x)
  {
    std::unique_lock<std::mutex> g(m);
    if (!on) return;
    auto it=idx.find(x); if (it==idx.end()) return;
    int me=it->second;
    ++inflight; maxin=std::max(maxin,inflight);
    auto turn=[&]{ return !on || pos>=sched.size() || sched[pos]==me || std::find(sched.begin()+pos,sched.end(),me)==sched.end(); };
    if (!cv.wait_for(g,std::chrono::milliseconds(60),turn)) { ++late; }
    // this evaluation completes: the next in the order may go on
    auto p=std::find(sched.begin(),sched.end(),me); if (p!=sched.end()) *p=-1;
    while (pos<sched.size() && sched[pos]==-1) ++pos;
    --inflight;
  }
  void done() { cv.notify_all(); }
};

// ---------- recorded objective ----------
struct Call { std::vector<double> x; double f; };
struct Obj
{
  std::string kind; std::vector<double> script; int mod=5; double quant=1.0; bool cyc=true;
  std::vector<int> nanat, infat; double noise=0.0; int spin=0; double scale=1.0, offset=0.0; std::string mono;
  std::vector<double> lb, ub; // "prefer" bound kinds
  std::mutex mtx; std::vector<Call> log; size_t total=0; bool keepx=true; Gate gate; int moved=0;
  explicit Obj(const Cfg &c)
  {
    kind = c.s("obj","sphere"); script = c.dl("script"); mod=c.i("mod",5); quant=c.d("quant",1.0); cyc=c.i("cyc",1);
    for (auto v : c.dl("nanat")) nanat.push_back((int)v);
    for (auto v : c.dl("infat")) infat.push_back((int)v);
    noise=c.d("noise",0.0); spin=c.i("spin",0); scale=c.d("fscale",1.0); offset=c.d("foffset",0.0); mono=c.s("mono");
  }
  static double base(const std::string &kind, const double *x, int n, double quant, int mod)
  {
    double v=0.0;
    if (kind=="sphere") { for (int i=0;i<n;i++) v+=x[i]*x[i]; }
    else if (kind=="elli") { for (int i=0;i<n;i++) v+=std::pow(1e3,n>1?double(i)/(n-1):0.0)*x[i]*x[i]; }
    else if (kind=="elli6") { for (int i=0;i<n;i++) v+=std::pow(1e6,n>1?double(i)/(n-1):0.0)*x[i]*x[i]; }
    else if (kind=="rosen") { if (n==1) v=x[0]*x[0]; for (int i=0;i+1<n;i++) v+=100*std::pow(x[i+1]-x[i]*x[i],2)+std::pow(x[i]-1,2); }
    else if (kind=="linear") { for (int i=0;i<n;i++) v+=(i+1)*x[i]; }
    else if (kind=="neglinear") { for (int i=0;i<n;i++) v-=(i+1)*x[i]; }
    else if (kind=="const") v=1.0;
    else if (kind=="step") { for (int i=0;i<n;i++) v+=std::floor(std::fabs(x[i])/quant); }
    else if (kind=="hash")
      { double s=0; for (int i=0;i<n;i++) s+=std::floor(x[i]*quant)*(2*i+3); v=std::fmod(std::fabs(s),mod); }
    else if (kind=="rastrigin") { for (int i=0;i<n;i++) v+=x[i]*x[i]-10*std::cos(2*M_PI*x[i])+10; }
    else if (kind=="sep1") v=x[0]*x[0];
    else if (kind=="tilt") { for (int i=0;i<n;i++) v+=(x[i]-(i+1))*(x[i]-(i+1))*(i+1); }
    else if (kind=="corr") { for (int i=0;i<n;i++) v+=(x[i]-(i+1))*(x[i]-(i+1))*(i+1); if (n>1) v+=(x[0]-1)*(x[1]-2); }
    return v;
  }
  double operator()(const double *x, const int &n)
  {
    size_t k;
    { std::lock_guard<std::mutex> g(mtx); k = ++total; }
    std::vector<double> x00(x,x+n); gate.wait(x00);
    double v;
    if (kind=="script") v = script.empty()?0.0:(cyc?script[(k-1)%script.size()]:script[std::min(k-1,script.size()-1)]);
    else v = base(kind,x,n,quant,mod);
    if (noise>0) { unsigned h=(unsigned)k*2654435761u; h^=h>>13; h*=2246822519u; h^=h>>16; v+=noise*((h%2001)/1000.0-1.0); }
    if (mono=="exp") v=std::exp(std::min(v*0.05,500.0));
    else if (mono=="cube") v=v*v*v;
    else if (mono=="sqrt") v=std::sqrt(std::fabs(v))*(v<0?-1:1);
    else if (mono=="log") v=std::log1p(std::fabs(v))*(v<0?-1:1);
    v = scale*v+offset;
    for (int q : nanat) if ((int)k==q) v=std::numeric_limits<double>::quiet_NaN();
    for (int q : infat) if ((int)k==q) v=(scale<0?-1:1)*std::numeric_limits<double>::infinity();
    if (spin) { unsigned h=(unsigned)(std::fabs(x[0])*1e4)%7; std::this_thread::sleep_for(std::chrono::microseconds(spin*(h+1))); }
    std::lock_guard<std::mutex> g(mtx);
    if (!std::equal(x00.begin(),x00.end(),x)) ++moved; // the point changed during its evaluation
    Call c; if (keepx) c.x.assign(x,x+n); c.f=v; log.push_back(c);
    gate.done();
    return v;
  }
  std::string drain(bool withx)
  {
    std::lock_guard<std::mutex> g(mtx);
    std::string r="[";
    for (size_t i=0;i<log.size();i++)
      {
        if (i) r+=",";
        r+="{\"f\":"+jd(log[i].f);
        if (withx) r+=",\"x\":"+jv(log[i].x.data(),(int)log[i].x.size());
        r+="}";
      }
    log.clear();
    return r+"]";
  }
};

// ---------- main loop: one forked child per config line ----------
// body(cfg) returns the JSON fields of the run (without the braces).
template <class F> int drive(int argc, char **argv, F body)
{
  if (argc < 3) { fprintf(stderr,"usage: %s CONFIGS OUT [timeout]\n",argv[0]); return 2; }
  std::ifstream in(argv[1]); std::ofstream out(argv[2]);
  int tmo = argc > 3 ? atoi(argv[3]) : 60;
  std::string line;
  while (std::getline(in,line))
    {
      if (line.empty()) continue;
      Cfg cfg(line);
      int fd[2]; if (pipe(fd)) return 2;
      fflush(stdout);
      pid_t p = fork();
      if (p == 0)
        {
          close(fd[0]);
          alarm(cfg.i("timeout",tmo));
          std::string res;
          try { res = body(cfg); }
          catch (std::exception &e) { res = "\"crash\":"+js(std::string("exception: ")+e.what()); }
          size_t off=0; while (off<res.size()) { ssize_t w=write(fd[1],res.data()+off,res.size()-off); if (w<=0) _exit(3); off+=w; }
          _exit(0);
        }
      close(fd[1]);
      std::string res; char buf[65536]; ssize_t n;
      while ((n=read(fd[0],buf,sizeof buf))>0) res.append(buf,n);
      close(fd[0]);
      int st=0; waitpid(p,&st,0);
      if (WIFSIGNALED(st)) res = "\"crash\":"+js(std::string("signal ")+std::to_string(WTERMSIG(st)));
      else if (res.empty()) res = "\"crash\":\"no output\"";
      out << "{\"run\":" << cfg.s("run","0") << "," << res << "}\n";
    }
  out.flush();
  return out.good()?0:2;
}
#endif
