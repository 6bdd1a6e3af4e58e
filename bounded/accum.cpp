// P11: flow accumulation against the conservation equation, evaluated recursively
#include "common.hpp"
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/d8_methods.hpp>
#include <omp.h>
using namespace rdv; using namespace richdem;
static bool near(double a,double b,double tol){ return std::fabs(a-b)<=tol*(1+std::fabs(b)); }
struct Net { int w,h; std::vector<char> dat; std::vector<std::array<float,9>> p; Net(int w,int h):w(w),h(h),dat(w*h,1),p(w*h){ for(auto &a:p) a.fill(0); }
  bool edge(int c)const{ int x=c%w,y=c/w; return x==0||y==0||x==w-1||y==h-1; }
  int nb(int c,int n)const{ int x=c%w+X8[n],y=c/w+Y8[n]; return x<0||y<0||x>=w||y>=h?-1:y*w+x; } };
static double solve(const Net &N,const std::vector<double> &own,std::vector<double> &memo,std::vector<char> &done,int c){
  if(done[c]) return memo[c];
  double s=own[c];
  for(int n=1;n<=8;n++){ int d=N.nb(c,n); if(d<0||!N.dat[d]) continue; int back=(n+3)%8+1; float q=N.p[d][back]; if(q>0) s+=(double)q*solve(N,own,memo,done,d); }
  done[c]=1; memo[c]=s; return s;
}
static std::string show(const Net &N){ std::ostringstream o; o<<N.w<<"x"<<N.h<<" "; for(int c=0;c<N.w*N.h;c++){ if(!N.dat[c]){ o<<"N"; for(int n=1;n<=8;n++) if(N.p[c][n]!=0) o<<n<<":"<<N.p[c][n]<<","; o<<";"; continue; } for(int n=1;n<=8;n++) if(N.p[c][n]!=0) o<<n<<":"<<N.p[c][n]<<","; o<<";"; } return o.str(); }
template<class A> void generic(Ctl &c,const Net &N,std::vector<double> own,const std::string &nm,double tol){
  std::ostringstream ow; for(auto v:own) ow<<v<<" ";
  c.begin(nm+" "+show(N)+" own "+ow.str());
  Array3D<float> P(N.w,N.h,0.f); P.setNoData(NO_DATA_GEN);
  Array2D<A> acc(N.w,N.h,A(0));
  for(int i=0;i<N.w*N.h;i++){ int x=i%N.w,y=i/N.w; bool any=false; for(int n=1;n<=8;n++){ P(x,y,n)=N.p[i][n]; if(N.p[i][n]>0) any=true; } P(x,y,0)=!N.dat[i]?NO_DATA_GEN:any?HAS_FLOW_GEN:NO_FLOW_GEN; acc(x,y)=A(own[i]); own[i]=double(acc(x,y)); }
  FlowAccumulation(P,acc);
  std::vector<double> memo(N.w*N.h); std::vector<char> done(N.w*N.h,0);
  if(acc.width()!=N.w||acc.height()!=N.h||acc.noData()!=A(ACCUM_NO_DATA)){ c.fail(nm,"dimensions or NoData value of the output"); return; }
  for(int i=0;i<N.w*N.h;i++){
    double got=acc(i%N.w,i/N.w), want=N.dat[i]?solve(N,own,memo,done,i):double(A(ACCUM_NO_DATA));
    if(!near(got,want,tol)){ c.fail(nm,"cell ("+str(i%N.w)+","+str(i/N.w)+") accumulates "+str(got)+", expected "+str(want)); return; }
  }
}
static void d8(Ctl &c,const Net &N,const std::vector<int> &dir,const std::string &nm){
  std::ostringstream o; o<<nm<<" "<<N.w<<"x"<<N.h<<" "; for(int v:dir) o<<v<<" "; c.begin(o.str());
  auto go=[&](auto D0,auto A0){ using D=decltype(D0); using A=decltype(A0);
    Array2D<D> d(N.w,N.h,D(0)); d.setNoData(D(255)); for(int i=0;i<N.w*N.h;i++) d(i%N.w,i/N.w)=D(dir[i]);
    Array2D<A> a(c.ri(1,3),c.ri(1,3),A(5)); d8_flow_accum(d,a);
    std::vector<double> own(N.w*N.h,1),memo(N.w*N.h); std::vector<char> done(N.w*N.h,0);
    if(a.width()!=N.w||a.height()!=N.h||a.noData()!=A(-1)){ c.fail(nm,"dimensions or NoData value of the output"); return; }
    for(int i=0;i<N.w*N.h;i++){ double got=a(i%N.w,i/N.w),want=N.dat[i]?solve(N,own,memo,done,i):-1;
      if(got!=want){ c.fail(nm,"cell ("+str(i%N.w)+","+str(i/N.w)+") accumulates "+str(got)+", expected "+str(want)); return; } }
  };
  switch(c.ri(0,2)){ case 0: go(uint8_t(),double()); break; case 1: go(int(),int32_t()); break; default: go(uint8_t(),float()); }
}
static Net rnd(Ctl &c,int m,bool dyadic,bool single,std::vector<int> &dir){
  int w=c.ri(1,m),h=c.ri(1,m); Net N(w,h); int n=w*h; std::vector<int> rank(n); for(int i=0;i<n;i++) rank[i]=i;
  int mode=c.ri(0,3); if(mode==0) std::shuffle(rank.begin(),rank.end(),c.rng); else if(mode==1) std::reverse(rank.begin(),rank.end());
  else if(mode==2) for(int i=0;i<n;i++) rank[i]=(i/w)*w+((i/w)%2?w-1-i%w:i%w);
  double nd=c.ri(0,2)?0:c.rr(0,0.4); for(auto &v:N.dat) v=c.rr(0,1)>=nd;
  dir.assign(n,0);
  for(int i=0;i<n;i++){ if(!N.dat[i]){ dir[i]=255; if(!single&&c.ri(0,3)==0) for(int k=1;k<=8;k++) N.p[i][k]=c.ri(0,2)/2.f; continue; }
    if(single){ std::vector<int> ok; for(int k=1;k<=8;k++){ int d=N.nb(i,k); if(d<0||!N.dat[d]||rank[d]>rank[i]) ok.push_back(k); }
      if(!ok.empty()&&c.ri(0,9)) { int k=ok[c.ri(0,(int)ok.size()-1)]; dir[i]=k; int d=N.nb(i,k); if(d>=0) N.p[i][k]=1; } continue; }
    if(N.edge(i)) continue;
    double s=0; for(int k=1;k<=8;k++){ int d=N.nb(i,k); if(rank[d]>rank[i]&&c.ri(0,2)){ N.p[i][k]=dyadic?c.ri(0,4)/4.f:float(c.rr(0,1)); s+=N.p[i][k]; } else if(c.ri(0,9)==0) N.p[i][k]=-1; }
    if(!dyadic&&s>0) for(int k=1;k<=8;k++) if(N.p[i][k]>0) N.p[i][k]/=s; }
  return N;
}
template<class T> void fm(Ctl &c,int m){
  auto g=random_grid<T>(c,c.ri(1,m),c.ri(1,m),c.ri(0,2)?0.0:c.rr(0,0.3)); auto a=g.a2d(); Array3D<float> P(a); std::string nm; double x=1+c.ri(0,3); int k=c.ri(0,6);
  Array2D<double> acc(a,1.0),acc2(g.w,g.h,1.0);
  c.begin("FA method "+str(k)+" "+g.show());
  switch(k){
    case 0: nm="FA_Tarboton"; FM_Tarboton(a,P); FA_Tarboton(a,acc); break;
    case 1: nm="FA_Holmgren"; FM_Holmgren(a,P,x); FA_Holmgren(a,acc,x); break;
    case 2: nm="FA_Quinn"; FM_Quinn(a,P); FA_Quinn(a,acc); break;
    case 3: nm="FA_Freeman"; FM_Freeman(a,P,x); FA_Freeman(a,acc,x); break;
    case 4: nm="FA_D8"; FM_D8(a,P); FA_D8(a,acc); break;
    case 5: nm="FA_D4"; FM_D4(a,P); FA_D4(a,acc); break;
    default: nm="FA_OCallaghanD8"; FM_OCallaghan<Topology::D8>(a,P); FA_OCallaghanD8(a,acc); break; }
  Net N(g.w,g.h); for(int i=0;i<g.w*g.h;i++){ N.dat[i]=P.getIN(i,0)!=P.noData(); for(int n=1;n<=8;n++) N.p[i][n]=N.dat[i]?P.getIN(i,n):0; if(N.dat[i]==g.isnd(i%g.w,i/g.w)){ c.fail(nm,"NoData cells of the proportions"); return; } }
  // the metric has to be acyclic for the equation to have a solution
  std::vector<int> indeg(g.w*g.h,0); for(int i=0;i<g.w*g.h;i++) for(int n=1;n<=8;n++) if(N.dat[i]&&N.p[i][n]>0){ int d=N.nb(i,n); if(d<0){ c.fail(nm,"flow out of the raster"); return; } indeg[d]++; }
  std::vector<int> q; for(int i=0;i<g.w*g.h;i++) if(!indeg[i]) q.push_back(i); for(size_t k=0;k<q.size();k++) for(int n=1;n<=8;n++) if(N.dat[q[k]]&&N.p[q[k]][n]>0) if(--indeg[N.nb(q[k],n)]==0) q.push_back(N.nb(q[k],n));
  if((int)q.size()!=g.w*g.h) return;
  std::vector<double> own(g.w*g.h,1.0),memo(g.w*g.h); std::vector<char> done(g.w*g.h,0);
  for(int i=0;i<g.w*g.h;i++){ double got=acc(i%g.w,i/g.w),want=N.dat[i]?solve(N,own,memo,done,i):-1; if(!near(got,want,1e-9)){ c.fail(nm,"cell ("+str(i%g.w)+","+str(i/g.w)+") accumulates "+str(got)+", expected "+str(want)); return; } }
}
int main(){ Ctl c; c.rule="random acyclic proportions and D8 directions on rasters up to 24x24, accumulations of seven flow metrics";
  std::vector<int> dir;
  { // rows that share neighbours between threads
    for(int rep=0;rep<8;rep++){ int w=100000,h=16; Net N(w,h); std::vector<int> d(w*h); for(int i=0;i<w*h;i++){ int y=i/w; d[i]=y%3==0?7:y%3==2?3:5; }
      c.begin("d8_flow_accum 100000x16 rows 7,5,3 repeating");
      Array2D<uint8_t> D(w,h,0); D.setNoData(255); for(int i=0;i<w*h;i++) D(i%w,i/w)=d[i]; Array2D<double> a; d8_flow_accum(D,a);
      for(int i=0;i<w*h;i++){ int y=i/w; double k=1+(y>0)+(y<h-1), e=y%3==1?k*(i%w+1):1; if(a(i%w,y)!=e){ c.fail("d8_flow_accum","cell ("+str(i%w)+","+str(y)+") accumulates "+str(a(i%w,y))+", expected "+str(e)); break; } } } }
  try { Array3D<float> P(3,3,0.f); Array2D<double> a(4,3,1.0); c.begin("FlowAccumulation with different dimensions"); bool t=false; try{ FlowAccumulation(P,a); }catch(const std::exception&){ t=true; } if(!t) c.fail("FlowAccumulation","no error for different dimensions"); } catch(...){ }
  while(c.more()){ omp_set_num_threads(c.ri(0,3)?1:c.ri(2,4)); int m=c.ri(0,3)?5:24;
    { auto N=rnd(c,m,true,false,dir); std::vector<double> own(N.w*N.h); bool ones=c.ri(0,1); for(auto &v:own) v=ones?1:c.ri(0,9); generic<double>(c,N,own,"FlowAccumulation<double>",1e-12); }
    { auto N=rnd(c,m,false,false,dir); std::vector<double> own(N.w*N.h); for(auto &v:own) v=c.rr(0,10); generic<double>(c,N,own,"FlowAccumulation<double>",1e-10); generic<float>(c,N,own,"FlowAccumulation<float>",1e-3); }
    { auto N=rnd(c,m,false,true,dir); d8(c,N,dir,"d8_flow_accum"); }
    fm<double>(c,m); fm<float>(c,m); fm<int>(c,m); }
  return c.finish(); }
