// Shared parts of the bounded checks: case bookkeeping, raster generators and the independent reference surface.
#pragma once
#include <richdem/common/Array2D.hpp>
#include <richdem/common/constants.hpp>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace rdv {

inline std::string env(const char *k, const char *d){ const char *v=getenv(k); return v?v:d; }

struct Ctl {
  double seconds; uint64_t seed; std::string tier, scratch, rule;
  std::chrono::steady_clock::time_point t0;
  uint64_t cases=0; std::unordered_set<uint64_t> seen; std::vector<std::string> samples; std::set<std::string> failed;
  char *cur=nullptr; static const size_t CUR=1<<17;
  std::mt19937_64 rng;
  Ctl(){
    seconds=atof(env("RDV_SECONDS","20").c_str()); seed=strtoull(env("RDV_SEED","1").c_str(),0,10); tier=env("RDV_TIER","quick"); scratch=env("RDV_SCRATCH",".");
    t0=std::chrono::steady_clock::now(); rng.seed(seed*7919+13);
    int fd=open("current_case",O_RDWR|O_CREAT|O_TRUNC,0644);
    if(fd>=0 && ftruncate(fd,CUR)==0) cur=(char*)mmap(0,CUR,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
    if(cur==MAP_FAILED) cur=nullptr;
    std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); std::clog.rdbuf(nullptr);
  }
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); }
  bool more(double frac=1.0) const { return elapsed()<seconds*frac; }
  static uint64_t hash(const std::string &s){ return std::hash<std::string>()(s); }
  // starts a case: its description is what a crash report shows
  void begin(const std::string &desc){
    cases++;
    if(seen.size()<2000000) seen.insert(hash(desc));
    if(samples.size()<3 && (cases==1||cases==97||cases==5003)) samples.push_back(desc.substr(0,300));
    if(cur){ size_t n=std::min(desc.size(),CUR-1); memcpy(cur,desc.data(),n); cur[n]=0; }
    last=desc;
  }
  std::string last;
  static std::string esc(const std::string &s){
    std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>126) o+='?'; else o+=c; } return o;
  }
  // reports a failure once per key
  void fail(const std::string &key, const std::string &what){
    if(!failed.insert(key).second) return;
    printf("{\"fail\":\"%s\",\"what\":\"%s\",\"input\":\"%s\"}\n",esc(key).c_str(),esc(what.substr(0,1500)).c_str(),esc(last.substr(0,6000)).c_str());
    fflush(stdout);
  }
  void check(bool ok, const std::string &key, const std::string &what){ if(!ok) fail(key,what); }
  int finish(){
    std::string s; for(auto &x:samples) s+=(s.empty()?"\"":",\"")+esc(x)+"\"";
    printf("{\"done\":true,\"cases\":%llu,\"distinct\":%llu,\"rule\":\"%s\",\"samples\":[%s]}\n",(unsigned long long)cases,(unsigned long long)seen.size(),esc(rule).c_str(),s.c_str());
    fflush(stdout);
    _exit(failed.empty()?0:1);
  }
  int ri(int a,int b){ return std::uniform_int_distribution<int>(a,b)(rng); }
  double rr(double a,double b){ return std::uniform_real_distribution<double>(a,b)(rng); }
};

template<class T> std::string str(const T &v){ std::ostringstream o; o.precision(17); o<<+v; return o.str(); }

// a plain raster, independent of the code under test
template<class T> struct Grid {
  int w,h; T nd; std::vector<T> v;
  Grid(int w0,int h0,T x=T(),T nd0=T(-9999)):w(w0),h(h0),nd(nd0),v((size_t)w0*h0,x){}
  T &at(int x,int y){ return v[(size_t)y*w+x]; }
  T at(int x,int y) const { return v[(size_t)y*w+x]; }
  bool in(int x,int y) const { return x>=0&&y>=0&&x<w&&y<h; }
  bool isnd(int x,int y) const { return at(x,y)==nd; }
  bool edge(int x,int y) const { return x==0||y==0||x==w-1||y==h-1; }
  richdem::Array2D<T> a2d() const {
    richdem::Array2D<T> a(w,h,T()); a.setNoData(nd);
    for(int y=0;y<h;y++)for(int x=0;x<w;x++)a(x,y)=at(x,y);
    a.geotransform={0,1,0,0,0,-1};
    return a;
  }
  std::string show() const { std::ostringstream o; o.precision(17); o<<w<<"x"<<h<<" nodata="<<+nd<<":"; for(int y=0;y<h;y++){ for(int x=0;x<w;x++) o<<" "<<+at(x,y); o<<";"; } return o.str(); }
};
template<class T> std::string show(const richdem::Array2D<T> &a){ std::ostringstream o; o.precision(17); o<<a.width()<<"x"<<a.height()<<":"; for(int y=0;y<a.height();y++){ for(int x=0;x<a.width();x++) o<<" "<<+a(x,y); o<<";"; } return o.str(); }

// neighbour displacements, written independently of the library's tables
static const int X8[9]={0,-1,-1,0,1,1,1,0,-1}, Y8[9]={0,0,-1,-1,-1,0,1,1,1}, X4[5]={0,-1,0,1,0}, Y4[5]={0,0,-1,0,1};
inline int NX(int m,int n){ return m==8?X8[n]:X4[n]; }
inline int NY(int m,int n){ return m==8?Y8[n]:Y4[n]; }

// the filled surface by fixed-point iteration of f = max(z, min over neighbours f), from above (edges fixed)
template<class T> Grid<T> reference_fill(const Grid<T> &z,int m,bool nd_outlets=false){
  Grid<T> f=z; const T INF=std::numeric_limits<T>::max();
  std::vector<char> fx((size_t)z.w*z.h,0);
  for(int y=0;y<z.h;y++)for(int x=0;x<z.w;x++){
    bool k=z.edge(x,y);
    if(nd_outlets){ k=k||z.isnd(x,y); for(int n=1;n<=8;n++) if(z.in(x+NX(8,n),y+NY(8,n))&&z.isnd(x+NX(8,n),y+NY(8,n))) k=true; }
    fx[(size_t)y*z.w+x]=k; if(!k) f.at(x,y)=INF;
  }
  bool ch=true;
  while(ch){ ch=false;
    auto relax=[&](int x,int y){ if(fx[(size_t)y*z.w+x]) return; T b=INF; for(int n=1;n<=m;n++){ int a=x+NX(m,n),c=y+NY(m,n); if(nd_outlets&&z.isnd(a,c)) continue; b=std::min(b,f.at(a,c)); } T t=std::max(z.at(x,y),b); if(t<f.at(x,y)){ f.at(x,y)=t; ch=true; } };
    for(int y=0;y<z.h;y++)for(int x=0;x<z.w;x++) relax(x,y);
    for(int y=z.h-1;y>=0;y--)for(int x=z.w-1;x>=0;x--) relax(x,y);
  }
  return f;
}

// ---- raster generation. kind of values: few distinct levels, many levels, plateaus, channels, cones
template<class T> T lim(double v){ if(std::is_floating_point<T>::value) return (T)v; double lo=std::numeric_limits<T>::lowest(),hi=std::numeric_limits<T>::max(); return (T)std::min(hi,std::max(lo,v)); }
template<class T> Grid<T> random_grid(Ctl &c,int w,int h,double ndfrac){
  T nd = std::is_unsigned<T>::value ? T(255) : T(-9999);
  if(std::is_floating_point<T>::value && c.ri(0,3)==0) nd=T(1e6);
  if(c.ri(0,5)==0) nd=std::is_unsigned<T>::value?T(0):T(3);
  Grid<T> g(w,h,T(),nd);
  int kind=c.ri(0,6); int lv=c.ri(1,9); double base=std::is_unsigned<T>::value?0:(c.ri(0,2)==0?-4:0);
  static const double SC[6]={1.0,1.0,0.37,0.37,1e-8,1e5}; double sc = std::is_floating_point<T>::value ? SC[c.ri(0,5)] : 1.0;
  double cx=c.rr(0,w),cy=c.rr(0,h); const bool fine=std::is_floating_point<T>::value && c.ri(0,7)==0;   // elevations that differ only in their last digits
  for(int y=0;y<h;y++)for(int x=0;x<w;x++){
    double v=0;
    switch(kind){
      case 0: case 1: v=c.ri(0,lv); break;
      case 2: v=std::is_floating_point<T>::value?c.rr(0,100):c.ri(0,100); break;
      case 3: v=std::floor(std::hypot(x-cx,y-cy))+(c.ri(0,4)==0?c.ri(0,3):0); break;          // bowl
      case 4: v=20-std::floor(std::hypot(x-cx,y-cy))+(c.ri(0,4)==0?-c.ri(0,3):0); break;      // cone
      case 5: v=(std::sin(x*0.9+cx)+std::cos(y*0.7+cy))*3+8; v=c.ri(0,3)?std::floor(v):v; break;
      case 6: v=((x/2+y/3)%2?5:1)+(c.ri(0,6)==0?c.ri(-1,3):0); break;                          // terraces
    }
    if(!std::is_floating_point<T>::value) v=std::floor(v);
    T t=fine ? T(1)+T(v)*std::numeric_limits<T>::epsilon()*8 : lim<T>((v+base)*sc);
    if(t==nd) t=lim<T>((double)t+1);
    g.at(x,y)=t;
  }
  if(ndfrac>0){
    int mode=c.ri(0,2);
    for(int y=0;y<h;y++)for(int x=0;x<w;x++){
      bool k = mode==0 ? c.rr(0,1)<ndfrac : mode==1 ? std::hypot(x-cx,y-cy)<ndfrac*(w+h)/3 : (x<w*ndfrac||y>h*(1-ndfrac/2));
      if(k) g.at(x,y)=nd;
    }
  }
  return g;
}

// small rasters, all contents over a few values; stride samples the enumeration when it is too long for the time left
template<class T,class F> void small_grids(Ctl &c,const std::vector<std::pair<int,int>> &dims,const std::vector<T> &vals,T nd,double frac,F f){
  for(auto d:dims){
    int n=d.first*d.second; double tot=std::pow((double)vals.size(),n);
    double cap=c.tier=="quick"?30000:300000;
    uint64_t N=(uint64_t)std::min(tot,cap); bool all=tot<=cap;
    for(uint64_t k=0;k<N&&c.more(frac);k++){
      Grid<T> g(d.first,d.second,T(),nd); uint64_t q=k;
      for(int i=0;i<n;i++){ g.v[i]= all? vals[q%vals.size()] : vals[c.ri(0,(int)vals.size()-1)]; q/=vals.size(); }
      f(g);
    }
  }
}
}
