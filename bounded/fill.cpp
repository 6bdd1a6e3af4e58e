// P05: every fill variant equals the reference surface
#include "common.hpp"
#include <richdem/depressions/Barnes2014.hpp>
#include <richdem/depressions/Zhou2016.hpp>
#include <richdem/depressions/Wei2018.hpp>
using namespace rdv; using namespace richdem;
template<class T> void one(Ctl &c,const Grid<T> &g,const char *ty){
  auto f8=reference_fill(g,8), f4=reference_fill(g,4);
  auto run=[&](const char *nm,const Grid<T> &f,std::function<void(Array2D<T>&)> fn){
    c.begin(std::string(nm)+" "+ty+" "+g.show());
    auto a=g.a2d(); fn(a);
    if(a.width()!=g.w||a.height()!=g.h){ c.fail(nm,"dimensions changed"); return; }
    for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++) if(!(a(x,y)==f.at(x,y))){ c.fail(nm,std::string(nm)+": cell ("+str(x)+","+str(y)+") is "+str(a(x,y))+", the minimal surface has "+str(f.at(x,y))); return; }
  };
  run("Original<D8>",f8,[](Array2D<T>&a){PriorityFlood_Original<Topology::D8>(a);});
  run("Original<D4>",f4,[](Array2D<T>&a){PriorityFlood_Original<Topology::D4>(a);});
  run("Barnes2014<D8>",f8,[](Array2D<T>&a){PriorityFlood_Barnes2014<Topology::D8>(a);});
  run("Barnes2014<D4>",f4,[](Array2D<T>&a){PriorityFlood_Barnes2014<Topology::D4>(a);});
  run("Zhou2016",f8,[](Array2D<T>&a){PriorityFlood_Zhou2016(a);});
  auto fw=reference_fill(g,8,true);
  run("Wei2018",fw,[](Array2D<T>&a){PriorityFlood_Wei2018(a);});
}
int main(){
  Ctl c; c.rule="small rasters over few values enumerated or sampled, then random rasters up to 40x40, six variants each";
  small_grids<int>(c,{{1,1},{1,2},{2,1},{2,2},{3,3}},{0,1,2},-9999,0.15,[&](const Grid<int>&g){one(c,g,"int");});
  small_grids<double>(c,{{3,4},{4,4},{5,4},{4,5},{5,5}},{0,1,2,3},-9999,0.4,[&](const Grid<double>&g){one(c,g,"double");});
  while(c.more()){
    int k=c.ri(0,9); int w=k==0?c.ri(1,3):k<8?c.ri(3,14):c.ri(10,40), h=k==1?c.ri(1,3):k<8?c.ri(3,14):c.ri(10,40);
    double nf=c.ri(0,3)?0:0.2;
    switch(c.ri(0,4)){
      case 0: one(c,random_grid<int>(c,w,h,nf),"int"); break;
      case 1: one(c,random_grid<float>(c,w,h,nf),"float"); break;
      case 2: one(c,random_grid<uint8_t>(c,w,h,nf),"uint8"); break;
      case 3: one(c,random_grid<int16_t>(c,w,h,nf),"int16"); break;
      default: one(c,random_grid<double>(c,w,h,nf),"double"); break;
    }
  }
  return c.finish();
}
