// P10: D8 flow directions against the definition
#include "common.hpp"
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <omp.h>
using namespace rdv; using namespace richdem;
template<class T,class U> void one(Ctl &c,const Grid<T> &g,const std::string &ty){
  const std::string nm="d8_flow_directions"; c.begin(nm+" "+ty+" "+g.show());
  auto a=g.a2d(); Array2D<U> d(c.ri(1,3),c.ri(1,3),U(77)); d8_flow_directions(a,d);
  if(d.width()!=g.w||d.height()!=g.h||d.noData()!=U(FLOWDIR_NO_DATA)){ c.fail(nm,"dimensions or NoData value of the output"); return; }
  for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++){
    int n=d(x,y); std::string at="cell ("+str(x)+","+str(y)+") has direction "+str(n)+" ";
    if(!(a(x,y)==g.at(x,y))){ c.fail(nm,"elevations changed"); return; }
    if(g.isnd(x,y)){ if(d(x,y)!=U(FLOWDIR_NO_DATA)){ c.fail(nm,at+"but is NoData"); return; } continue; }
    if(g.edge(x,y)){
      bool cor=(x==0||x==g.w-1)&&(y==0||y==g.h-1);
      if(n<1||n>8||g.in(x+X8[n],y+Y8[n])||cor!=(n%2==0)||(cor&&((x+X8[n]>=0&&x+X8[n]<g.w)||(y+Y8[n]>=0&&y+Y8[n]<g.h)))){ c.fail(nm,at+"on the edge"); return; }
      continue;
    }
    int best=0; for(int k: {1,3,5,7,2,4,6,8}){ T v=g.at(x+X8[k],y+Y8[k]); if(v<g.at(x,y)&&(best==0||v<g.at(x+X8[best],y+Y8[best]))) best=k; }
    bool ok = best==0 ? n==0 : (n>=1&&n<=8&&g.at(x+X8[n],y+Y8[n])==g.at(x+X8[best],y+Y8[best])&&(n%2==best%2));
    if(!ok){ c.fail(nm,at+"; expected one like "+str(best)); return; }
  }
}
template<class T> void rnd(Ctl &c,int m,const char*ty){ auto g=random_grid<T>(c,c.ri(1,m),c.ri(1,m),c.ri(0,2)?0.0:c.rr(0,0.5)); switch(c.ri(0,2)){ case 0: one<T,uint8_t>(c,g,ty); break; case 1: one<T,int8_t>(c,g,ty); break; default: one<T,int>(c,g,ty); } }
int main(){ Ctl c; c.rule="all 3x3 neighbourhoods over three values around a middle cell, random rasters up to 30x30 of six element types";
  omp_set_num_threads(1);
  for(int k=0;k<19683;k+=(c.tier=="quick"?1:1)){ Grid<int> g(3,3,0,-9999); int r=k; for(auto &v:g.v){ v=r%3; r/=3; } one<int,uint8_t>(c,g,"int"); }
  while(c.more()){ omp_set_num_threads(c.ri(0,3)?1:c.ri(2,4)); int m=c.ri(0,3)?6:30; rnd<int8_t>(c,m,"int8"); rnd<uint8_t>(c,m,"uint8"); rnd<int16_t>(c,m,"int16"); rnd<int>(c,m,"int"); rnd<float>(c,m,"float"); rnd<double>(c,m,"double"); }
  return c.finish(); }
