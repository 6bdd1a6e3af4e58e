// P01: cell addressing and neighbour geometry, including rasters too large to hold (wrapped, never touched)
#include "common.hpp"
#include <richdem/common/Array3D.hpp>
using namespace rdv; using namespace richdem;
static std::string dims(long w,long h){ return str(w)+"x"+str(h); }
// the tables, cell by cell
static void tables(Ctl &c){
  c.begin("tables");
  for(int n=0;n<9;n++){
    c.check(d8x[n]==X8[n]&&d8y[n]==Y8[n],"tables","d8x/d8y "+str(n));
    c.check(d8x[d8_inverse[n]]==-X8[n]&&d8y[d8_inverse[n]]==-Y8[n],"tables","d8_inverse "+str(n));
    double r=std::sqrt((double)(X8[n]*X8[n]+Y8[n]*Y8[n])); c.check(std::abs(dr[n]-r)<1e-15&&std::abs(d8r[n]-r)<1e-15,"tables","dr/d8r "+str(n));
    c.check(n8_diag[n]==(X8[n]!=0&&Y8[n]!=0),"tables","n8_diag "+str(n));
  }
  for(int n=0;n<5;n++){
    c.check(d4x[n]==X4[n]&&d4y[n]==Y4[n],"tables","d4x/d4y "+str(n));
    c.check(d4x[d4_inverse[n]]==-X4[n]&&d4y[d4_inverse[n]]==-Y4[n],"tables","d4_inverse "+str(n));
    c.check(d4r[n]==(n>0)&&!n4_diag[n],"tables","d4r/n4_diag "+str(n));
  }
  for(int n=1;n<=8;n++) c.check(get_dx_for_topology<Topology::D8>()[n]==X8[n]&&get_dy_for_topology<Topology::D8>()[n]==Y8[n]&&get_nmax_for_topology<Topology::D8>()==8,"tables","topology D8");
  for(int n=1;n<=4;n++) c.check(get_dx_for_topology<Topology::D4>()[n]==X4[n]&&get_dy_for_topology<Topology::D4>()[n]==Y4[n]&&get_nmax_for_topology<Topology::D4>()==4,"tables","topology D4");
}
template<class T> void cell(Ctl &c,const Array2D<T>&a,const Array3D<float>&p,long w,long h,int x,int y,const std::string &how){
  const std::string nm="addressing", at=how+" "+dims(w,h)+" cell ("+str(x)+","+str(y)+")";
  c.begin(at);
  uint64_t i=(uint64_t)y*w+x; int rx=-1,ry=-1; a.iToxy((uint32_t)i,rx,ry);
  if(a.xyToI(x,y)!=i) c.fail(nm,at+": xyToI "+str(a.xyToI(x,y)));
  if(rx!=x||ry!=y) c.fail(nm,at+": iToxy "+str(rx)+","+str(ry));
  bool e=x==0||y==0||x==w-1||y==h-1;
  if(a.isEdgeCell(x,y)!=e||a.isEdgeCell((uint32_t)i)!=e) c.fail(nm,at+": isEdgeCell");
  if(a.isTopLeft(x,y)!=(x==0&&y==0)||a.isTopRight(x,y)!=(x==w-1&&y==0)||a.isBottomLeft(x,y)!=(x==0&&y==h-1)||a.isBottomRight(x,y)!=(x==w-1&&y==h-1)) c.fail(nm,at+": corner test");
  if(a.isTopRow(x,y)!=(y==0)||a.isBottomRow(x,y)!=(y==h-1)||a.isLeftCol(x,y)!=(x==0)||a.isRightCol(x,y)!=(x==w-1)) c.fail(nm,at+": row or column test");
  for(int n=0;n<=8;n++){
    int nx=x+X8[n],ny=y+Y8[n]; bool in=nx>=0&&ny>=0&&nx<w&&ny<h; uint32_t want=in?(uint32_t)((uint64_t)ny*w+nx):0xFFFFFFFFu;
    if(a.inGrid(nx,ny)!=in||p.inGrid(nx,ny)!=in) c.fail(nm,at+": inGrid of neighbour "+str(n));
    if(a.getN((uint32_t)i,n)!=want) c.fail(nm,at+": getN "+str(n)+" is "+str(a.getN((uint32_t)i,n)));
    if(a.nToI((uint32_t)i,X8[n],Y8[n])!=want) c.fail(nm,at+": nToI "+str(n));
    if(in&&(uint32_t)(i+a.nshift(n))!=want) c.fail(nm,at+": nshift "+str(n)+" is "+str(a.nshift(n)));
    if(p.xyToI(x,y,n)!=9ull*i+n) c.fail(nm,at+": Array3D::xyToI "+str(n));
  }
}
template<class T> void raster(Ctl &c,const Array2D<T>&a,long w,long h,const std::string &how,bool all){
  Array3D<float> p((float*)nullptr,w,h);
  c.begin(how+" "+dims(w,h));
  if(a.width()!=w||a.height()!=h||a.size()!=(uint64_t)w*h) { c.fail("addressing",how+" "+dims(w,h)+": size "+str(a.size())); return; }
  if(p.width()!=w||p.height()!=h||p.size()!=(uint64_t)w*h) { c.fail("addressing3","Array3D "+dims(w,h)+": size "+str(p.size())); return; }
  if(all){ for(int y=0;y<h;y++)for(int x=0;x<w;x++) cell(c,a,p,w,h,x,y,how); return; }
  std::set<long> xs,ys; for(long d:{0L,1L,2L,w/2,w-3,w-2,w-1}) if(d>=0&&d<w) xs.insert(d); for(long d:{0L,1L,2L,h/2,h-3,h-2,h-1}) if(d>=0&&d<h) ys.insert(d);
  for(int k=0;k<3;k++){ xs.insert(c.ri(0,w-1)); ys.insert(c.ri(0,h-1)); }
  for(long y:ys)for(long x:xs) cell(c,a,p,w,h,(int)x,(int)y,how);
}
static void variants(Ctl &c,int w,int h){
  Array2D<double> a(w,h,1.5); raster(c,a,w,h,"constructed",true);
  std::vector<int> buf(w*h,7); Array2D<int> b(buf.data(),w,h); raster(c,b,w,h,"wrapped",true);
  Array2D<float> t(a,2.f); raster(c,t,w,h,"template copy",true);
  auto m=Array2D<uint8_t>::make_from_template(a,3); raster(c,m,w,h,"make_from_template",true);
  Array2D<int> r(3,2,1); r.resize(a,4); raster(c,r,w,h,"resize(other)",true);
  Array2D<int> r2(2,5,1); r2.resize(w,h,4); raster(c,r2,w,h,"resize",true);
  Array2D<int> r3(1,1,1); r3.expand(w,h,4); raster(c,r3,w,h,"expand",true);
  Array2D<double> cp(a); raster(c,cp,w,h,"copy",true); Array2D<double> as(1,7,0.0); as=a; raster(c,as,w,h,"assigned",true);
  Array2D<double> mv(std::move(cp)); raster(c,mv,w,h,"moved",true); Array2D<double> ma; ma=std::move(as); raster(c,ma,w,h,"move-assigned",true);
  Array2D<double> tr(h,w,1.0); tr.transpose(); raster(c,tr,w,h,"transposed",true);
  Array3D<float> p(w,h,0.5f); Array3D<float> q(a,0.25f); 
  c.begin("Array3D "+dims(w,h));
  for(int y=0;y<h;y++)for(int x=0;x<w;x++)for(int n=0;n<9;n++){ p(x,y,n)=(y*w+x)*9+n; q(x,y,n)=p(x,y,n); }
  for(int y=0;y<h;y++)for(int x=0;x<w;x++)for(int n=0;n<9;n++) if(p(x,y,n)!=(y*w+x)*9+n||p.getIN(y*w+x,n)!=p(x,y,n)||q.getIN(y*w+x,n)!=p(x,y,n)) c.fail("addressing3","cells of an Array3D overlap");
  p.setNoData(0); for(int y=0;y<h;y++)for(int x=0;x<w;x++) if(p.isNoData(x,y)!=(x==0&&y==0)||p.isNoData(y*w+x)!=(x==0&&y==0)) c.fail("addressing3","isNoData");
  if(p.numDataCells()!=(size_t)w*h-1) c.fail("addressing3","numDataCells");
}
int main(){
  Ctl c; c.rule="all neighbour tables; every cell of rasters up to 9x9 made in thirteen ways; border and random cells of wrapped rasters of up to 4294967294 cells";
  tables(c);
  for(int h=1;h<=9;h++)for(int w=1;w<=9;w++) variants(c,w,h);
  static const long D[][2]={{65535,65535},{65536,65535},{65535,65536},{46341,46341},{2147483640,1},{1,2147483640},{2147483640,2},{2,2147483640},{100000,42949},{3,1431655000},{32768,65536},{65536,32768},{1<<20,4095}};
  for(auto &d:D){ Array2D<uint8_t> a((uint8_t*)nullptr,d[0],d[1]); raster(c,a,d[0],d[1],"wrapped",false); Array2D<double> b((double*)nullptr,d[0],d[1]); raster(c,b,d[0],d[1],"wrapped",false); }
  while(c.more(0.5)){
    long w=c.ri(1,4)==1?c.ri(1,2147483640):c.ri(1,70000); long h=std::min<long>(2147483640,4294967294L/w); h=c.ri(0,1)?h:c.ri(1,(int)h); if(h<1) continue;
    if(c.ri(0,1)){ Array2D<int16_t> a((int16_t*)nullptr,w,h); raster(c,a,w,h,"wrapped",false); } else { Array2D<float> a((float*)nullptr,w,h); raster(c,a,w,h,"wrapped",false); }
  }
  return c.finish();
}
