// P12: flat detection
#include "common.hpp"
#include <richdem/flats/find_flats.hpp>
#include <omp.h>
using namespace rdv; using namespace richdem;
template<class T> void one(Ctl &c,const Grid<T> &g,const char*ty){ c.begin(std::string("FindFlats ")+ty+" "+g.show()); auto a=g.a2d(); Array2D<int8_t> f(c.ri(1,3),c.ri(1,3),9); FindFlats(a,f);
  if(f.width()!=g.w||f.height()!=g.h||f.noData()!=-1){ c.fail("FindFlats","dimensions or NoData value of the output"); return; }
  for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++){ int want; if(!(a(x,y)==g.at(x,y))){ c.fail("FindFlats","elevations changed"); return; }
    if(g.isnd(x,y)) want=-1; else if(g.edge(x,y)) want=0; else { want=1; for(int n=1;n<=8;n++) if(g.isnd(x+X8[n],y+Y8[n])||g.at(x+X8[n],y+Y8[n])<g.at(x,y)) want=0; }
    if(f(x,y)!=want){ c.fail("FindFlats","cell ("+str(x)+","+str(y)+") is "+str((int)f(x,y))+", expected "+str(want)); return; } } }
template<class T> void rnd(Ctl &c,int m,const char*ty){ one(c,random_grid<T>(c,c.ri(1,m),c.ri(1,m),c.ri(0,2)?0.0:c.rr(0,0.5)),ty); }
int main(){ Ctl c; c.rule="all 3x3 rasters over three values, random rasters up to 30x30 of six types";
  omp_set_num_threads(1);
  for(int nd=0;nd<2;nd++) for(int k=0;k<19683;k++){ Grid<int> g(3,3,0,nd?0:-9999); int r=k; for(auto &v:g.v){ v=r%3; r/=3; } one<int>(c,g,"int"); }
  while(c.more()){ omp_set_num_threads(c.ri(0,3)?1:c.ri(2,4)); int m=c.ri(0,3)?6:30; rnd<int8_t>(c,m,"int8"); rnd<uint8_t>(c,m,"uint8"); rnd<int16_t>(c,m,"int16"); rnd<int>(c,m,"int"); rnd<float>(c,m,"float"); rnd<double>(c,m,"double"); }
  return c.finish(); }
