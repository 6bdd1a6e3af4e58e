// P08: flow directions and watershed labels by Priority-Flood
#include "common.hpp"
#include <richdem/depressions/Barnes2014.hpp>
using namespace rdv; using namespace richdem;
template<class T> void dirs(Ctl &c,const Grid<T> &g,const Grid<T> &f,const std::string &ty){
  const std::string nm="Flowdirs"; c.begin(nm+" "+ty+" "+g.show());
  auto a=g.a2d(); Array2D<d8_flowdir_t> d; PriorityFloodFlowdirs_Barnes2014(a,d);
  if(d.width()!=g.w||d.height()!=g.h){ c.fail(nm,"dimensions of the output"); return; }
  if(d.noData()!=NO_FLOW){ c.fail(nm,"NoData value of the output"); return; }
  for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++) if(!(a(x,y)==g.at(x,y))){ c.fail(nm,"elevations changed"); return; }
  for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++){
    int n=d(x,y); std::string at="cell ("+str(x)+","+str(y)+") ";
    if(g.edge(x,y)){ if(n<1||n>8||g.in(x+X8[n],y+Y8[n])){ c.fail(nm,at+"on the edge has direction "+str(n)); return; } continue; }
    if(g.isnd(x,y)){ if(n!=0){ c.fail(nm,at+"is NoData with direction "+str(n)); return; } continue; }
    if(n<1||n>8){ c.fail(nm,at+"has no direction"); return; }
    int p=x,q=y,steps=0;
    while(true){
      if(g.at(p,q)>f.at(x,y)){ c.fail(nm,at+"drains over a cell above its filled elevation: "+show(d)); return; }
      if(g.edge(p,q)) break;
      int k=d(p,q); if(k==0) break; if(k<0||k>8){ c.fail(nm,at+"reaches a bad direction"); return; }
      p+=X8[k]; q+=Y8[k]; if(++steps>g.w*g.h){ c.fail(nm,at+"never reaches the edge: "+show(d)); return; }
    }
  }
}
template<Topology topo,class T> void labs(Ctl &c,const Grid<T> &g,const Grid<T> &f,int m,bool alter,const std::string &ty){
  const std::string nm=std::string("Watersheds<")+(m==8?"D8":"D4")+">"; c.begin(nm+(alter?" alter ":" ")+ty+" "+g.show());
  auto a=g.a2d(); Array2D<int32_t> l; PriorityFloodWatersheds_Barnes2014<topo>(a,l,alter);
  if(l.width()!=g.w||l.height()!=g.h||l.noData()!=-1){ c.fail(nm,"dimensions or NoData of the labels"); return; }
  // components drained over a filled path: a label class must be one connected set, and each labelled cell must reach its seed within its label
  std::map<int,std::vector<std::pair<int,int>>> cl;
  for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++){
    std::string at="cell ("+str(x)+","+str(y)+") ";
    if(!(a(x,y)==(alter?f.at(x,y):g.at(x,y)))){ c.fail(nm,at+"has elevation "+str(a(x,y))); return; }
    if(l(x,y)==-1){ if(!g.isnd(x,y)){ c.fail(nm,at+"is a data cell without label: "+show(l)); return; } continue; }
    if(l(x,y)<1){ c.fail(nm,at+"has label "+str(l(x,y))); return; }
    cl[l(x,y)].push_back({x,y});
    if(!g.edge(x,y)){
      bool ok=false;      // a neighbour it drains through: max(z, f of the neighbour) is its own filled elevation
      for(int n=1;n<=m;n++){ int p=x+NX(m,n),q=y+NY(m,n); if(std::max(g.at(x,y),f.at(p,q))==f.at(x,y)&&(l(p,q)==l(x,y)||l(p,q)==-1)) ok=true; }
      if(!ok){ c.fail(nm,at+"shares no label with a cell it can drain through: "+show(l)); return; }
    }
  }
  for(auto &k:cl){
    std::set<std::pair<int,int>> S(k.second.begin(),k.second.end()); int seeds=0;
    // number of possible outlets of the class: connected, and with exactly one outlet there is one component
    std::vector<std::pair<int,int>> st={k.second[0]}; std::set<std::pair<int,int>> seen={k.second[0]};
    while(!st.empty()){ auto e=st.back(); st.pop_back(); for(int n=1;n<=m;n++){ std::pair<int,int> b{e.first+NX(m,n),e.second+NY(m,n)}; if(S.count(b)&&seen.insert(b).second) st.push_back(b); } }
    for(auto &e:k.second) if(g.edge(e.first,e.second)) seeds++;
    if(seen.size()!=S.size()){ c.fail(nm,"the watershed "+str(k.first)+" is not connected: "+show(l)); return; }
    if(seeds>1){ c.fail(nm,"two edge cells share the watershed "+str(k.first)+": "+show(l)); return; }
    if(seeds==0){ bool nb=false; for(auto &e:k.second) for(int n=1;n<=m;n++){ int p=e.first+NX(m,n),q=e.second+NY(m,n); if(g.in(p,q)&&l(p,q)==-1) nb=true; } if(!nb){ c.fail(nm,"the watershed "+str(k.first)+" has no outlet: "+show(l)); return; } }
  }
}
template<class T> void one(Ctl &c,const Grid<T> &g,const std::string &ty){
  auto f8=reference_fill(g,8); dirs(c,g,f8,ty);
  for(auto v:g.v) if(v<g.nd) return;       // labels: NoData is the lowest value, as the algorithm requires
  auto f4=reference_fill(g,4);
  for(int al=0;al<2;al++){ labs<Topology::D8>(c,g,f8,8,al,ty); labs<Topology::D4>(c,g,f4,4,al,ty); }
}
int main(){
  Ctl c; c.rule="small rasters over few values enumerated or sampled, then random rasters up to 40x40 with NoData patterns, int/float/double/uint8, both topologies, with and without altering";
  small_grids<int>(c,{{1,1},{1,2},{2,1},{2,2},{1,4},{3,3}},{0,1,2},0,0.2,[&](const Grid<int>&g){one(c,g,"int");});
  small_grids<double>(c,{{3,4},{4,4},{5,4},{4,5},{5,5},{6,3}},{0,1,2,3},c.ri(-1,0),0.4,[&](const Grid<double>&g){one(c,g,"double");});
  while(c.more()){
    int k=c.ri(0,9); int w=k==0?c.ri(1,3):k<8?c.ri(3,14):c.ri(10,40), h=k==1?c.ri(1,3):k<8?c.ri(3,14):c.ri(10,40);
    double nf=c.ri(0,2)?0:0.25;
    switch(c.ri(0,3)){
      case 0: one(c,random_grid<float>(c,w,h,nf),"float"); break;
      case 1: one(c,random_grid<int>(c,w,h,nf),"int"); break;
      case 2: one(c,random_grid<uint8_t>(c,w,h,nf),"uint8"); break;
      default: one(c,random_grid<double>(c,w,h,nf),"double"); break;
    }
  }
  return c.finish();
}
