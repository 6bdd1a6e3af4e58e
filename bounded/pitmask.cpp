// P06: HasDepressions and pit_mask against the reference surface
#include "common.hpp"
#include <richdem/depressions/Barnes2014.hpp>
using namespace rdv; using namespace richdem;
template<Topology topo,class T> void one_t(Ctl &c,const Grid<T> &g,const std::string &ty,int m){
  auto f=reference_fill(g,m); bool any=false;
  for(size_t i=0;i<g.v.size();i++) if(f.v[i]!=g.v[i]) any=true;
  const std::string t=m==8?"<D8>":"<D4>";
  c.begin("HasDepressions"+t+" "+ty+" "+g.show());
  { auto a=g.a2d(); bool r=HasDepressions<topo>(a); c.check(r==any,"HasDepressions"+t,std::string("HasDepressions says ")+(r?"yes":"no")+(any?" but filling raises a cell":" but filling changes nothing"));
    for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++) if(!(a(x,y)==g.at(x,y))) c.fail("HasDepressions"+t,"the raster was modified"); }
  c.begin("pit_mask"+t+" "+ty+" "+g.show());
  { auto a=g.a2d(); Array2D<uint8_t> mk; if(c.ri(0,3)==0) mk=Array2D<uint8_t>(c.ri(1,4),c.ri(1,4),uint8_t(7));
    pit_mask<topo>(a,mk);
    if(mk.width()!=g.w||mk.height()!=g.h){ c.fail("pit_mask"+t,"dimensions"); return; }
    const int nd=mk.noData();
    for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++){
      bool pit=f.at(x,y)!=g.at(x,y);
      int want=g.isnd(x,y)?nd:pit?1:0;
      if(mk(x,y)!=want){ c.fail("pit_mask"+t,"cell ("+str(x)+","+str(y)+") is marked "+str(mk(x,y))+", expected "+str(want)); return; }
    }
    if(nd==0||nd==1) c.fail("pit_mask"+t,"NoData mark equals a pit mark");
  }
}
template<class T> void one(Ctl &c,const Grid<T> &g,const char *ty){ one_t<Topology::D8>(c,g,ty,8); one_t<Topology::D4>(c,g,ty,4); }
int main(){
  Ctl c; c.rule="small rasters over few values enumerated or sampled (with NoData among the values), then random rasters up to 40x40 with NoData patterns, both topologies";
  small_grids<int>(c,{{1,1},{1,2},{2,1},{2,2},{3,3}},{0,1,2},2,0.2,[&](const Grid<int>&g){one(c,g,"int");});
  small_grids<double>(c,{{3,4},{4,4},{5,4},{4,5},{5,5}},{0,1,2,3},c.ri(0,3),0.4,[&](const Grid<double>&g){one(c,g,"double");});
  while(c.more()){
    int k=c.ri(0,9); int w=k==0?c.ri(1,3):k<8?c.ri(3,14):c.ri(10,40), h=k==1?c.ri(1,3):k<8?c.ri(3,14):c.ri(10,40);
    double nf=c.ri(0,2)?0:0.2;
    switch(c.ri(0,4)){
      case 0: one(c,random_grid<int>(c,w,h,nf),"int"); break;
      case 1: one(c,random_grid<float>(c,w,h,nf),"float"); break;
      case 2: one(c,random_grid<uint8_t>(c,w,h,nf),"uint8"); break;
      case 3: one(c,random_grid<int8_t>(c,w,h,nf),"int8"); break;
      default: one(c,random_grid<double>(c,w,h,nf),"double"); break;
    }
  }
  return c.finish();
}
