// P09: flow metrics give every cell a valid downslope partition
#include "common.hpp"
#include <richdem/common/Array3D.hpp>
#include <richdem/flowmet/OCallaghan1984.hpp>
#include <richdem/flowmet/Fairfield1991.hpp>
#include <richdem/flowmet/Freeman1991.hpp>
#include <richdem/flowmet/Holmgren1994.hpp>
#include <richdem/flowmet/Quinn1991.hpp>
#include <richdem/flowmet/Tarboton1997.hpp>
#include <omp.h>
using namespace rdv; using namespace richdem;
typedef long double ld;
// the draws: what a uniform distribution over [0,1) can return, its ends included
static thread_local std::mt19937_64 urng(12345);
namespace richdem { double uniform_rand_real(double a,double b){ const uint64_t r=urng(); double u; switch(r%16){ case 0: u=0; break; case 1: u=0x1p-53; break; case 2: u=1-0x1p-53; break; case 3: u=0.5; break; default: u=(urng()>>11)*0x1p-53; } return a+(b-a)*u; } }
template<class T> void laws(Ctl &c,const Grid<T>&g,const Array3D<float>&p,const char*k,int m,bool facets,bool single,std::function<void(int,int,const float*)> more){
  const int w=g.w,h=g.h;
  for(int y=0;y<h;y++)for(int x=0;x<w;x++){
    float q[9]; for(int n=0;n<=8;n++) q[n]=p(x,y,n);
    const std::string at=" at ("+str(x)+","+str(y)+")";
    if(g.isnd(x,y)){ c.check(q[0]==NO_DATA_GEN,k,"NoData cell is not marked NoData"+at); continue; }
    bool low=false; if(!g.edge(x,y)) for(int n=1;n<=m;n++){ const int a=x+NX(m,n),b=y+NY(m,n); if(g.isnd(a,b)||!(g.at(a,b)<g.at(x,y))) continue;
      if(facets){ const int r=n%8+1,l=(n+6)%8+1; if(g.isnd(x+X8[r],y+Y8[r])&&g.isnd(x+X8[l],y+Y8[l])) continue; } low=true; }
    if(!low){ c.check(q[0]==NO_FLOW_GEN,k,"cell without flow is marked "+str(q[0])+at); continue; }
    c.check(q[0]==HAS_FLOW_GEN,k,"cell with a lower neighbour is marked "+str(q[0])+at); if(q[0]!=HAS_FLOW_GEN) continue;
    double s=0; int cnt=0;
    for(int n=1;n<=8;n++){ if(n>m){ c.check(q[n]<=0,k,"flow in a direction the topology does not have"+at); continue; }
      if(q[n]==NO_FLOW_GEN) continue;      // unused direction
      c.check(q[n]>=0&&q[n]<=1.000001f,k,"proportion "+str(q[n])+" in direction "+str(n)+at);
      if(q[n]>0){ cnt++; s+=q[n]; const int a=x+NX(m,n),b=y+NY(m,n); c.check(!g.isnd(a,b),k,"flow into NoData"+at); c.check(g.at(a,b)<g.at(x,y),k,"flow to a neighbour that is not lower"+at); } }
    c.check(std::fabs(s-1)<=1e-5,k,"proportions sum to "+str(s)+at); if(single) c.check(cnt==1,k,"flow to "+str(cnt)+" neighbours"+at);
    if(more) more(x,y,q);
  }
}
template<class T> void one(Ctl &c,const char*tn){
  const int w=c.ri(1,16),h=c.ri(1,16); Grid<T> g=random_grid<T>(c,w,h,c.ri(0,2)?c.rr(0,0.3):0);
  static const double XS[]={1.0,1.1,0.5,2.0,4.0,7.5,10.0,0.1}; const double xp=XS[c.ri(0,7)];
  if(std::is_floating_point<T>::value&&c.ri(0,5)==0){ const T sc=c.ri(0,1)?(T)1e-13:(T)1e4; for(auto &v:g.v) if(v!=g.nd){ v=(T)(v*sc); if(v==g.nd) v=v+1; } }
  omp_set_num_threads(c.ri(1,4));
  const auto e=g.a2d(); const std::string d=std::string(tn)+" exponent "+str(xp)+": "+g.show();
  auto run=[&](const char*k,int m,bool fac,bool single,std::function<void(Array3D<float>&)> f,std::function<void(int,int,const float*)> more=nullptr){ c.begin(std::string(k)+" "+d); Array3D<float> p(w,h,7.0f); f(p); if(p.noData()!=NO_DATA_GEN) c.fail(k,"NoData value of the result"); laws(c,g,p,k,m,fac,single,more); };
  auto lowest=[&](int m){ return [&c,&g,m](int x,int y,const float*q){ for(int n=1;n<=m;n++) if(q[n]>0) for(int k=1;k<=m;k++){ const int a=x+NX(m,k),b=y+NY(m,k); c.check(g.isnd(a,b)||!(g.at(a,b)<g.at(x+NX(m,n),y+NY(m,n))),m==8?"D8":"D4","not the lowest neighbour at ("+str(x)+","+str(y)+")"); } }; };
  run("D8",8,false,true,[&](Array3D<float>&p){ FM_D8(e,p); },lowest(8)); run("D4",4,false,true,[&](Array3D<float>&p){ FM_D4(e,p); },lowest(4));
  run("Rho8",8,false,true,[&](Array3D<float>&p){ FM_Rho8(e,p); }); run("Rho4",4,false,true,[&](Array3D<float>&p){ FM_Rho4(e,p); });
  auto power=[&](const char*k,double ex,bool holm){ return [&c,&g,k,ex,holm](int x,int y,const float*q){ ld v[9]={},mx=0,s=0; for(int n=1;n<=8;n++){ const int a=x+X8[n],b=y+Y8[n]; if(g.isnd(a,b)||!(g.at(a,b)<g.at(x,y))) continue; v[n]=((ld)g.at(x,y)-(ld)g.at(a,b))/((n%2)?1.0L:std::sqrt((ld)2)); if(holm) v[n]*=(n%2)?0.5L:0.354L; mx=std::max(mx,v[n]); }
    for(int n=1;n<=8;n++) if(v[n]>0){ v[n]=std::pow(v[n]/mx,(ld)ex); s+=v[n]; }
    const bool fl=std::is_same<T,float>::value; for(int n=1;n<=8;n++) c.check(std::fabs((ld)std::max(0.0f,q[n])-v[n]/s)<=(fl?1e-4L:2e-6L)*std::max((ld)1,(ld)ex),k,"proportion "+str(q[n])+" instead of "+str((double)(v[n]/s))+" in direction "+str(n)+" at ("+str(x)+","+str(y)+")"); }; };
  run("Freeman",8,false,false,[&](Array3D<float>&p){ FM_Freeman(e,p,xp); },power("Freeman",xp,false)); run("Holmgren",8,false,false,[&](Array3D<float>&p){ FM_Holmgren(e,p,xp); },power("Holmgren",xp,true)); run("Quinn",8,false,false,[&](Array3D<float>&p){ FM_Quinn(e,p); },power("Quinn",1,true));
  run("D-infinity",8,true,false,[&](Array3D<float>&p){ FM_Tarboton(e,p); },[&](int x,int y,const float*q){ int f=0,l=0,n2=0; for(int n=1;n<=8;n++) if(q[n]>0){ n2++; if(!f) f=n; l=n; } c.check(n2<=2&&(n2<2||l==f+1||(f==1&&l==8)),"D-infinity","flow to neighbours that do not share a facet at ("+str(x)+","+str(y)+")");
    // the steepest facets (straight neighbour a, diagonal b), and whether the shares are those of one of them
    ld S[9],R[9],best=0; for(int n=1;n<=8;n++){ S[n]=-1; const int a=n%2?n:n%8+1,b=n%2?n+1:n; if(g.isnd(x+X8[a],y+Y8[a])||g.isnd(x+X8[b],y+Y8[b])) continue; const ld e0=g.at(x,y),e1=g.at(x+X8[a],y+Y8[a]),e2=g.at(x+X8[b],y+Y8[b]),s1=e0-e1,s2=e1-e2,q4=std::atan((ld)1);
      ld r=std::atan2(s2,s1); if(r<=0){ r=0; S[n]=s1; } else if(r>=q4){ r=q4; S[n]=(e0-e2)/std::sqrt((ld)2); } else S[n]=std::sqrt(s1*s1+s2*s2); R[n]=r/q4; best=std::max(best,S[n]); }
    bool ok=false; for(int n=1;n<=8;n++) if(S[n]>0&&S[n]>=best*(1-1e-6L)){ const int a=n%2?n:n%8+1,b=n%2?n+1:n; if(std::fabs(std::max(0.0f,q[a])-(1-R[n]))<1e-5L&&std::fabs(std::max(0.0f,q[b])-R[n])<1e-5L) ok=true; }
    c.check(ok,"D-infinity","shares are not those of the steepest facet at ("+str(x)+","+str(y)+")"); });
}
int main(){ Ctl c; c.rule="random rasters up to 16x16 of six element types with NoData cells, exponents 0.1-10, all draws including the ends of [0,1), 1-4 threads";
  while(c.more()){ one<double>(c,"double"); one<float>(c,"float"); one<int32_t>(c,"int32"); one<uint8_t>(c,"uint8"); one<int16_t>(c,"int16"); one<double>(c,"double"); }
  return c.finish(); }
