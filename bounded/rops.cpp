// P02: whole-raster operations against an independent cell-by-cell account
#include "common.hpp"
#include <richdem/common/Array3D.hpp>
using namespace rdv; using namespace richdem;
template<class T> bool same(const Array2D<T>&a,const Grid<T>&g){
  if(a.width()!=g.w||a.height()!=g.h||a.size()!=(uint64_t)g.w*g.h||a.noData()!=g.nd) return false;
  static const int W[9]={0,-1,-1,0,1,1,1,0,-1},H[9]={0,0,-1,-1,-1,0,1,1,1};
  for(int n=0;n<9;n++) if(a.nshift(n)!=H[n]*g.w+W[n]) return false;
  for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++) if(a.data()[(size_t)y*g.w+x]!=g.at(x,y)) return false;
  return true;
}
template<class T> void ops(Ctl &c,const Grid<T>&g,const std::string &tn){
  const std::string at=tn+" "+g.show(); c.begin(at);
  const int w=g.w,h=g.h; auto bad=[&](const char*op,const std::string&m){ c.fail(op,std::string(op)+": "+m+" on "+at.substr(0,1200)); };
  const bool wrap=c.ri(0,3)==0; std::vector<T> buf(g.v);
  auto mk=[&](std::vector<T>&b){ if(!wrap){ return g.a2d(); } b=g.v; Array2D<T> a(b.data(),w,h); a.setNoData(g.nd); return a; };
  auto R=[&](const char*op,auto f,auto ref){ std::vector<T> b; auto a=mk(b); f(a); Grid<T> r=g; ref(r); if(!same(a,r)) bad(op,"left "+show(a)); };
  const T v=g.v[c.ri(0,(int)g.v.size()-1)], u=(T)c.ri(0,9);
  R("setAll",[&](auto&a){a.setAll(u);},[&](auto&r){for(auto&q:r.v)q=u;});
  R("replace",[&](auto&a){a.replace(v,u);},[&](auto&r){for(auto&q:r.v)if(q==v)q=u;});
  R("replace",[&](auto&a){a.replace(g.nd,u);},[&](auto&r){for(auto&q:r.v)if(q==g.nd)q=u;});
  const double s=std::vector<double>{0,1,2,-1,0.5,3,0.1,1/3.}[c.ri(0,7)]; bool ok=true;
  for(auto q:g.v) if(q!=g.nd){ double p=q*s; if(p<(double)std::numeric_limits<T>::lowest()||p>(double)std::numeric_limits<T>::max()) ok=false; }
  if(ok) R("scale",[&](auto&a){a.scale(s);},[&](auto&r){for(auto&q:r.v)if(q!=g.nd)q=(T)(q*s);});
  const int y0=c.ri(0,h-1),x0=c.ri(0,w-1);
  R("setRow",[&](auto&a){a.setRow(y0,u);},[&](auto&r){for(int x=0;x<w;x++)r.at(x,y0)=u;});
  R("setCol",[&](auto&a){a.setCol(x0,u);},[&](auto&r){for(int y=0;y<h;y++)r.at(x0,y)=u;});
  R("setEdges",[&](auto&a){a.setEdges(u);},[&](auto&r){for(int y=0;y<h;y++)for(int x=0;x<w;x++)if(r.edge(x,y))r.at(x,y)=u;});
  R("flipVert",[&](auto&a){a.flipVert();},[&](auto&r){for(int y=0;y<h;y++)for(int x=0;x<w;x++)r.at(x,y)=g.at(x,h-1-y);});
  R("flipHorz",[&](auto&a){a.flipHorz();},[&](auto&r){for(int y=0;y<h;y++)for(int x=0;x<w;x++)r.at(x,y)=g.at(w-1-x,y);});
  R("transpose",[&](auto&a){a.transpose();},[&](auto&r){ r=Grid<T>(h,w,T(),g.nd); for(int y=0;y<h;y++)for(int x=0;x<w;x++)r.at(y,x)=g.at(x,y);});
  R("setNoData",[&](auto&a){a.setNoData(v);},[&](auto&r){r.nd=v;});
  { auto a=g.a2d(); int nw=c.ri(1,9),nh=c.ri(1,9); a.resize(nw,nh,u); if(!same(a,Grid<T>(nw,nh,u,g.nd))) bad("resize","left "+show(a)); }
  { auto a=g.a2d(); int nw=w+c.ri(0,4),nh=h+c.ri(0,4); a.expand(nw,nh,u); Grid<T> r(nw,nh,u,g.nd); for(int y=0;y<h;y++)for(int x=0;x<w;x++)r.at(x,y)=g.at(x,y); if(!same(a,r)) bad("expand","to "+str(nw)+"x"+str(nh)+" left "+show(a));
    if(w>1){ auto b=g.a2d(); bool t=false; try{ b.expand(w-1,h,u); }catch(std::runtime_error&){ t=true; } if(!t||!same(b,g)) bad("expand","to a smaller width is not refused"); }
    if(h>1){ auto b=g.a2d(); bool t=false; try{ b.expand(w,h-1,u); }catch(std::runtime_error&){ t=true; } if(!t||!same(b,g)) bad("expand","to a smaller height is not refused"); }
    std::vector<T> q(g.v); Array2D<T> b(q.data(),w,h); b.setNoData(g.nd); bool t=false; try{ b.expand(w+1,h,u); }catch(std::runtime_error&){ t=true; } if(!t||!same(b,g)||b.data()!=q.data()) bad("expand","of a wrapped raster is not refused");
  }
  std::vector<T> b0; const auto a=mk(b0);
  T mn=std::numeric_limits<T>::max(),mx=std::numeric_limits<T>::lowest(); uint64_t nv=0,dc=0,nn=0;
  for(auto q:g.v){ if(q!=g.nd){ mn=std::min(mn,q); mx=std::max(mx,q); dc++; } else nn++; if(q==v) nv++; }
  if(dc>0&&a.min()!=mn) bad("min","is "+str(a.min())); if(dc>0&&a.max()!=mx) bad("max","is "+str(a.max()));
  if(a.countval(v)!=nv||a.countval(g.nd)!=nn) bad("countval","is "+str(a.countval(v)));
  if(a.numDataCells()!=dc) bad("numDataCells","is "+str(a.numDataCells()));
  { auto e=g.a2d(); e.countDataCells(); if(e.numDataCells()!=dc) bad("countDataCells","is "+str(e.numDataCells())); e.setAll(g.nd); e.countDataCells(); if(e.numDataCells()!=0) bad("countDataCells","does not start again from zero"); }
  for(int y=0;y<h;y++)for(int x=0;x<w;x++){ bool d=g.at(x,y)==g.nd; if(a.isNoData(x,y)!=d||a.isData(x,y)==d||a.isNoData((uint32_t)(y*w+x))!=d||a.isData((uint32_t)(y*w+x))==d) bad("isNoData","at ("+str(x)+","+str(y)+")"); if(a(x,y)!=g.at(x,y)||a((uint32_t)(y*w+x))!=g.at(x,y)) bad("operator()","at ("+str(x)+","+str(y)+")"); }
  auto row=[&](int y){ std::vector<T> r; for(int x=0;x<w;x++)r.push_back(g.at(x,y)); return r; }; auto col=[&](int x){ std::vector<T> r; for(int y=0;y<h;y++)r.push_back(g.at(x,y)); return r; };
  if(a.getRowData(y0)!=row(y0)||a.topRow()!=row(0)||a.bottomRow()!=row(h-1)) bad("getRowData","wrong row"); if(a.getColData(x0)!=col(x0)||a.leftColumn()!=col(0)||a.rightColumn()!=col(w-1)) bad("getColData","wrong column");
  // equality
  { auto e=g.a2d(); if(!(a==e)) bad("operator==","differs from an equal raster"); int i=c.ri(0,w*h-1); T o=e((uint32_t)i); e((uint32_t)i)=(T)(o+1); if(a==e) bad("operator==","misses a difference at cell "+str(i)); e((uint32_t)i)=o; if(!(a==e)) bad("operator==","?"); e.setNoData((T)(g.nd+1)); if(a==e) bad("operator==","misses a NoData difference");
    Array2D<T> t(h,w,T()); t.setNoData(g.nd); for(int k=0;k<w*h;k++) t((uint32_t)k)=g.v[k]; if(w!=h&&a==t) bad("operator==","ignores the dimensions"); }
}
template<class T> void ops3(Ctl &c,int w,int h,const std::string &tn){
  Array3D<T> a(w,h,(T)2); a.setNoData((T)-1); c.begin("Array3D<"+tn+"> "+str(w)+"x"+str(h)); std::vector<T> ref((size_t)9*w*h,2);
  auto at=[&](int x,int y,int n)->T&{ return ref[((size_t)y*w+x)*9+n]; }; auto bad=[&](const std::string&m){ c.fail("Array3D",m+" on "+c.last); };
  for(int y=0;y<h;y++)for(int x=0;x<w;x++)for(int n=0;n<9;n++){ if(a(x,y,n)!=(T)2) bad("construction"); T v=(T)c.ri(-1,4); a(x,y,n)=v; at(x,y,n)=v; }
  size_t dc=0; for(int y=0;y<h;y++)for(int x=0;x<w;x++){ bool nd=at(x,y,0)==(T)-1; dc+=!nd; if(a.isNoData(x,y)!=nd||a.isNoData((size_t)y*w+x)!=nd) bad("isNoData"); for(int n=0;n<9;n++){ const auto&k=a; if(a(x,y,n)!=at(x,y,n)||k(x,y,n)!=at(x,y,n)||a.getIN((size_t)y*w+x,n)!=at(x,y,n)||k.getIN((size_t)y*w+x,n)!=at(x,y,n)) bad("element access"); } }
  if(a.numDataCells()!=dc) bad("numDataCells is "+str(a.numDataCells())+", expected "+str(dc)); a.countDataCells(); if(a.numDataCells()!=dc) bad("countDataCells");
  Array3D<T> b(w,h,(T)0); b.setNoData((T)-1); for(int y=0;y<h;y++)for(int x=0;x<w;x++)for(int n=0;n<9;n++) b(x,y,n)=at(x,y,n);
  if(!(a==b)) bad("operator== differs from an equal raster"); int x=c.ri(0,w-1),y=c.ri(0,h-1),n=c.ri(0,8); b(x,y,n)=(T)(b(x,y,n)+1); if(a==b) bad("operator== misses a difference at ("+str(x)+","+str(y)+") entry "+str(n));
  a.setAll((T)7); for(int y=0;y<h;y++)for(int x=0;x<w;x++)for(int n=0;n<9;n++) if(a(x,y,n)!=(T)7) bad("setAll"); a.resize(h,w,(T)3); if(a.width()!=h||a.height()!=w) bad("resize"); for(int y=0;y<w;y++)for(int x=0;x<h;x++)for(int n=0;n<9;n++) if(a(x,y,n)!=(T)3) bad("resize");
}
template<class T> void one(Ctl &c,int w,int h,const std::string &tn){ auto g=random_grid<T>(c,w,h,c.ri(0,2)*0.2); ops(c,g,tn); }
static void all(Ctl &c,int w,int h){ one<double>(c,w,h,"double"); one<float>(c,w,h,"float"); one<int32_t>(c,w,h,"int32"); one<uint8_t>(c,w,h,"uint8"); one<int16_t>(c,w,h,"int16"); one<uint64_t>(c,w,h,"uint64"); ops3<float>(c,w,h,"float"); ops3<int32_t>(c,w,h,"int32"); }
int main(){
  Ctl c; c.rule="random contents of every size up to 8x8, owned and wrapped, six element types; larger random sizes up to 60x60";
  for(int k=0;k<3;k++) for(int h=1;h<=8;h++)for(int w=1;w<=8;w++) all(c,w,h);
  while(c.more()) all(c,c.ri(1,c.ri(0,5)?12:60),c.ri(1,c.ri(0,5)?12:60));
  return c.finish();
}
