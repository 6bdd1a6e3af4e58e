// P07: epsilon filling on real floats
#include "common.hpp"
#include <richdem/depressions/Barnes2014.hpp>
using namespace rdv; using namespace richdem;
template<Topology topo,class T> void one_t(Ctl &c,const Grid<T> &g,const std::string &ty,int m){
  const std::string nm=m==8?"Epsilon<D8>":"Epsilon<D4>";
  c.begin(nm+" "+ty+" "+g.show());
  auto a=g.a2d(); PriorityFloodEpsilon_Barnes2014<topo>(a);
  if(a.width()!=g.w||a.height()!=g.h){ c.fail(nm,"dimensions changed"); return; }
  if(!(a.noData()==g.nd)){ c.fail(nm,"NoData value changed"); return; }
  const T inf=std::numeric_limits<T>::infinity();
  for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++){
    T o=g.at(x,y), e=a(x,y); std::string at="cell ("+str(x)+","+str(y)+") ";
    if(g.edge(x,y)){ if(!(e==o)) { c.fail(nm,at+"on the edge changed to "+str(e)); return; } continue; }
    if(g.isnd(x,y)){ if(!(e==o)) { c.fail(nm,at+"NoData changed to "+str(e)); return; } continue; }
    if(!(e>=o)){ c.fail(nm,at+"lowered to "+str(e)); return; }
    bool low=false, step=false;
    for(int n=1;n<=m;n++){ int p=x+NX(m,n),q=y+NY(m,n); T b=a(p,q); if(b<e||g.isnd(p,q)) low=true; if((b<e)&&std::nextafter(b,inf)==e) step=true; }
    if(!low){ c.fail(nm,at+"has no strictly lower or NoData neighbour: "+show(a)); return; }
    if(e!=o&&!step){ c.fail(nm,at+"was raised, but not to the next value above a neighbour: "+show(a)); return; }
  }
}
template<class T> void one(Ctl &c,const Grid<T> &g,const char *ty){ one_t<Topology::D8>(c,g,ty,8); one_t<Topology::D4>(c,g,ty,4); }
// elevations spaced a few representable steps apart, where raised cells meet existing ones
template<class T> Grid<T> tight(Ctl &c,int w,int h){
  T nd=c.ri(0,1)?T(-9999):T(0.5); Grid<T> g(w,h,T(),nd); T base=c.ri(0,2)==0?T(0):c.ri(0,1)?T(1):T(-1); int k=c.ri(1,6);
  for(auto &v:g.v){ v=base; for(int i=c.ri(0,k);i>0;i--) v=std::nextafter(v,std::numeric_limits<T>::infinity()); if(c.ri(0,12)==0&&c.ri(0,1)) v=nd; }
  return g;
}
int main(){
  Ctl c; c.rule="small rasters over few values enumerated or sampled, rasters with elevations a few representable steps apart, then random rasters up to 40x40 with NoData patterns, float and double, both topologies";
  small_grids<float>(c,{{1,1},{1,2},{2,1},{2,2},{3,3}},{0,1,2},2,0.15,[&](const Grid<float>&g){one(c,g,"float");});
  small_grids<double>(c,{{3,4},{4,4},{5,4},{4,5},{5,5}},{0,1,2,3},c.ri(0,3),0.35,[&](const Grid<double>&g){one(c,g,"double");});
  while(c.more()){
    int k=c.ri(0,9); int w=k==0?c.ri(1,3):k<8?c.ri(3,14):c.ri(10,40), h=k==1?c.ri(1,3):k<8?c.ri(3,14):c.ri(10,40);
    double nf=c.ri(0,2)?0:0.2;
    switch(c.ri(0,3)){
      case 0: one(c,random_grid<float>(c,w,h,nf),"float"); break;
      case 1: one(c,tight<float>(c,w,h),"float"); break;
      case 2: one(c,tight<double>(c,w,h),"double"); break;
      default: one(c,random_grid<double>(c,w,h,nf),"double"); break;
    }
  }
  return c.finish();
}
