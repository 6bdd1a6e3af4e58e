// P23: what is saved to a cache file comes back, bit for bit
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <ctime>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#define private public
#include <richdem/common/Array2D.hpp>
#undef private
#include "common.hpp"
using namespace rdv; using namespace richdem;
template<class T> T bits(Ctl &c){ T v; unsigned char b[sizeof(T)]; for(auto &x:b) x=c.ri(0,255); if(c.ri(0,3)==0&&std::is_floating_point<T>::value){ static const double S[]={0.0,-0.0,std::nan("1"),INFINITY,-INFINITY,5e-324,1.7e308}; return (T)S[c.ri(0,6)]; } memcpy(&v,b,sizeof(T)); return v; }
template<class T> bool same(const T &a,const T &b){ return memcmp(&a,&b,sizeof(T))==0; }
template<class T> struct Pic { int w,h,xo,yo; uint32_t ndc; T nd; std::vector<double> g; std::string p; std::vector<T> d; };
template<class T> Pic<T> pic(const Array2D<T>&a){ Pic<T> q{a.view_width,a.view_height,a.view_xoff,a.view_yoff,(uint32_t)a.num_data_cells,a.no_data,a.geotransform,a.projection,{}}; if(!a.empty()) q.d.assign(a.data(),a.data()+(size_t)a.view_width*a.view_height); return q; }
template<class V> bool samev(const V&a,const V&b){ return a.size()==b.size()&&(a.empty()||memcmp(a.data(),b.data(),a.size()*sizeof(a[0]))==0); }
template<class T> void cmp(Ctl &c,const Pic<T>&a,const Pic<T>&b,const char*k,bool data=true){
  c.check(a.w==b.w&&a.h==b.h,k,"dimensions "+str(b.w)+"x"+str(b.h)+" instead of "+str(a.w)+"x"+str(a.h));
  c.check(a.xo==b.xo&&a.yo==b.yo,k,"offsets differ"); c.check(a.ndc==b.ndc,k,"number of data cells differs"); c.check(same(a.nd,b.nd),k,"NoData value differs");
  c.check(samev(a.g,b.g),k,"geotransform differs"); c.check(a.p==b.p,k,"projection differs"); c.check(!data||samev(a.d,b.d),k,"cells differ");
}
template<class T> void one(Ctl &c,const char*tn){
  const int w=c.ri(1,30),h=c.ri(1,30); Array2D<T> a(w,h,T());
  for(uint32_t i=0;i<a.size();i++) a(i)=bits<T>(c);
  T nd=bits<T>(c); if(nd!=nd) nd=(T)-9999; a.setNoData(nd);
  a.view_xoff=c.ri(-50,5000); a.view_yoff=c.ri(-50,5000); if(c.ri(0,1)) a.countDataCells();
  const int gm=c.ri(0,2); if(gm){ a.geotransform.resize(6); for(auto&x:a.geotransform) x=gm==1?c.rr(-1e6,1e6):0; a.geotransform[1]=0.5; a.geotransform[5]=-0.25; }
  std::string p; const int pl=c.ri(0,3)==0?c.ri(0,3000):c.ri(0,20); for(int i=0;i<pl;i++) p+=(char)c.ri(0,255); a.projection=p;
  const std::string f1=c.scratch+"/a.rd",f2=c.scratch+"/b.rd";
  c.begin(std::string(tn)+" "+str(w)+"x"+str(h)+" geotransform "+str(gm)+" projection of "+str(pl)+" bytes");
  const Pic<T> q=pic(a);
  try {
    a.saveToCache(f1); cmp(c,q,pic(a),"saving");
    { Array2D<T> b(f1,true); cmp(c,q,pic(b),"loading a saved raster"); c.check(b.from_cache,"loading a saved raster","not marked as cached");
      b.saveToCache(f2); Array2D<T> d(f2,true); cmp(c,q,pic(d),"saving and loading twice"); }
    { Array2D<T> b(f1,true,0,0,0,0,false,false); c.check(b.empty(),"loading without data","cells were loaded"); cmp(c,q,pic(b),"loading without data",false); b.loadData(); cmp(c,q,pic(b),"loading the data later"); }
    a.setCacheFilename(f2); a.dumpData(); c.check(a.empty(),"purging","cells are still in memory"); cmp(c,q,pic(a),"purging",false);
    a.loadData(); cmp(c,q,pic(a),"loading after purging");
    if(c.ri(0,3)==0){ if(w*h*sizeof(T)>0) a(0)=bits<T>(c); const Pic<T> r=pic(a); a.dumpData(); a.loadData(); cmp(c,r,pic(a),"purging a second time"); }
  } catch(const std::exception &e){ c.fail("exception",e.what()); }
  if(c.ri(0,7)==0){ // a device that is full, a directory that is missing: reported, and nothing is lost
    for(const char*bad:{"/dev/full","/nonexistent-dir/x.rd"}){ const Pic<T> r=pic(a); a.setCacheFilename(bad); bool t=false; try{ a.dumpData(); }catch(const std::exception&){ t=true; } c.check(t,"failed saving",std::string("not reported for ")+bad); c.check(samev(pic(a).d,r.d),"failed saving",std::string("cells lost when saving to ")+bad); if(a.empty()) return; }
    bool t=false; try{ Array2D<T> b(c.scratch+"/missing.rd",true); }catch(const std::exception&){ t=true; } c.check(t,"missing file","not reported"); }
}
int main(){ Ctl c; c.rule="random rasters of ten element types up to 30x30 with arbitrary bits, with and without geotransform, projections of 0-3000 arbitrary bytes";
  while(c.more()){ one<double>(c,"double"); one<float>(c,"float"); one<int8_t>(c,"int8"); one<uint8_t>(c,"uint8"); one<int16_t>(c,"int16"); one<uint16_t>(c,"uint16"); one<int32_t>(c,"int32"); one<uint32_t>(c,"uint32"); one<int64_t>(c,"int64"); one<uint64_t>(c,"uint64"); }
  return c.finish(); }
