// P21: bucket fills, perimeters, surface areas
#include "common.hpp"
#include <richdem/misc/misc_methods.hpp>
#include <omp.h>
using namespace rdv; using namespace richdem;
template<Topology T,class A,class B> void fill(Ctl &c,int m,const char*nm){
  int w=c.ri(1,m),h=c.ri(1,m),k=c.ri(1,3); Array2D<A> chk(w,h,A(0)); Array2D<B> st(w,h,B(0)); std::vector<int> f(w*h); std::ostringstream o; o<<nm<<" "<<w<<"x"<<h<<" ";
  A cv=A(c.ri(0,k)); B sv=B(c.ri(0,3)); for(int i=0;i<w*h;i++){ chk(i)=A(c.ri(0,4)?(int)cv:c.ri(0,k)); st(i)=B(c.ri(0,5)?7:c.ri(0,3)); o<<(double)chk(i)<<":"<<(double)st(i)<<" "; }
  bool edges=c.ri(0,1); std::vector<size_t> seeds; for(int n=c.ri(0,3);n>0;n--) seeds.push_back(c.ri(0,w*h-1)); o<<"check "<<(double)cv<<" set "<<(double)sv<<" "; if(edges) o<<"edges"; else for(auto s:seeds) o<<"seed "<<s<<" "; c.begin(o.str());
  int nm_=T==Topology::D8?8:4; std::vector<int> R(w*h); std::vector<int> q; auto ok=[&](int i){ return chk(i)==cv&&st(i)!=sv; };
  auto push=[&](int i){ if(ok(i)&&!R[i]){ R[i]=1; q.push_back(i); } };
  if(edges){ for(int i=0;i<w*h;i++) if(i%w==0||i%w==w-1||i/w==0||i/w==h-1) push(i); } else for(auto s:seeds) push(s);
  while(!q.empty()){ int i=q.back(); q.pop_back(); for(int n=1;n<=nm_;n++){ int x=i%w+(nm_==8?X8[n]:X4[n]),y=i/w+(nm_==8?Y8[n]:Y4[n]); if(x>=0&&y>=0&&x<w&&y<h) push(y*w+x); } }
  Array2D<B> s2=st; Array2D<A> c0=chk; if(edges) BucketFillFromEdges<T>(chk,s2,cv,sv); else BucketFill<T>(chk,s2,cv,sv,seeds);
  for(int i=0;i<w*h;i++){ B want=R[i]?sv:st(i); if(s2(i)!=want||chk(i)!=c0(i)){ c.fail(nm,"cell "+str(i)+" is "+str((double)s2(i))+", expected "+str((double)want)); return; } } }
template<class T> void perim(Ctl &c,int m,const char*ty){ auto g=random_grid<T>(c,c.ri(1,m),c.ri(1,m),c.rr(0,0.6)); auto a=g.a2d(); double dx=c.ri(1,4),dy=c.ri(1,4); a.geotransform={10,dx,0,20,0,-dy};
  c.begin(std::string("Perimeter ")+ty+" cells "+str(dx)+"x"+str(dy)+" "+g.show()); double cells=0,v=0,h=0;
  for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++){ if(g.isnd(x,y)) continue; bool b=false; for(int n=1;n<=8;n++){ int X=x+X8[n],Y=y+Y8[n]; bool o=!g.in(X,Y)||g.isnd(X,Y); b|=o; if(o&&X==x) h++; if(o&&Y==y) v++; } cells+=b; }
  double r=Perimeter(a,PerimType::CELL_COUNT); if(r!=cells) c.fail("Perimeter cell count","gives "+str(r)+", expected "+str(cells));
  r=Perimeter(a,PerimType::SQUARE_EDGE); if(r!=h*dx+v*dy) c.fail("Perimeter edges","gives "+str(r)+", expected "+str(h*dx+v*dy)); }
template<class T> void area(Ctl &c,int m,const char*ty){ Grid<T> g=random_grid<T>(c,c.ri(1,m),c.ri(1,m),c.ri(0,1)?0:c.rr(0,0.6)); auto a=g.a2d(); double dx=c.ri(1,4)*0.5,dy=c.ri(1,4)*0.5,zs=c.ri(1,4)*0.25; a.geotransform={10,dx,0,20,0,-dy};
  for(auto &v:g.v) if((double)v>1e4||(double)v<-1e4) return;
  c.begin(std::string("dem_surface_area ")+ty+" cells "+str(dx)+"x"+str(dy)+" zscale "+str(zs)+" "+g.show()); long double S=0; long cnt=0;
  for(int y=0;y<g.h;y++)for(int x=0;x<g.w;x++){ if(g.isnd(x,y)) continue; cnt++;
    auto e=[&](int n)->long double{ int X=x+X8[n],Y=y+Y8[n]; return (long double)zs*((!g.in(X,Y)||g.isnd(X,Y))?g.at(x,y):g.at(X,Y)); };
    for(int n=1;n<=8;n++){ int k=n%8+1; long double z=(long double)zs*g.at(x,y); // half the cross product of the half vectors to the two neighbours
      long double ax=X8[n]*dx/2,ay=Y8[n]*dy/2,az=(e(n)-z)/2,bx=X8[k]*dx/2,by=Y8[k]*dy/2,bz=(e(k)-z)/2;
      long double u=ay*bz-az*by,v=az*bx-ax*bz,q=ax*by-ay*bx; S+=sqrtl(u*u+v*v+q*q)/2; } }
  double r=dem_surface_area(a,zs); if(!(std::fabs(r-(double)S)<=1e-6*(1+(double)S))) c.fail("dem_surface_area","gives "+str(r)+", expected "+str((double)S));
  if(r<cnt*dx*dy) c.fail("dem_surface_area","less than the planar area"); }
int main(){ Ctl c; c.rule="random rasters up to 30x30 of several types, cell sizes and z-scales";
  while(c.more()){ omp_set_num_threads(c.ri(0,3)?1:c.ri(2,4)); int m=c.ri(0,3)?5:30;
    fill<Topology::D8,int,int>(c,m,"BucketFill D8 int int"); fill<Topology::D4,int,int>(c,m,"BucketFill D4 int int"); fill<Topology::D8,double,int8_t>(c,m,"BucketFill D8 double int8"); fill<Topology::D4,uint8_t,float>(c,m,"BucketFill D4 uint8 float");
    perim<double>(c,m,"double"); perim<int>(c,m,"int"); perim<float>(c,m,"float"); perim<uint8_t>(c,m,"uint8"); area<double>(c,m,"double"); area<int>(c,m,"int"); area<float>(c,m,"float"); area<int8_t>(c,m,"int8"); }
  try{ Array2D<int> a(3,2,1),b(2,3,0); c.begin("BucketFill with different dimensions"); bool t=false; try{ std::vector<size_t> s{0}; BucketFill<Topology::D8>(a,b,1,1,s); }catch(const std::exception&){ t=true; } if(!t) c.fail("BucketFill","different dimensions accepted"); }catch(...){}
  return c.finish(); }
