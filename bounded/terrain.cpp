// P15: terrain attributes against a long double evaluation of their formulas
#include "common.hpp"
#include <richdem/methods/terrain_attributes.hpp>
#include <omp.h>
using namespace rdv; using namespace richdem;
typedef long double ld;
template<class T> void one(Ctl &c,const char*tn){
  const int w=c.ri(1,24),h=c.ri(1,24); const Grid<T> g=random_grid<T>(c,w,h,c.ri(0,2)?c.rr(0,0.4):0);
  static const double LS[]={1,1,0.5,30,1e-3,92.5}; const double lx=LS[c.ri(0,5)],ly=c.ri(0,1)?lx:LS[c.ri(0,5)]; static const float ZS[]={1.0f,1.0f,2.5f,0.3f,1e-5f}; const float zs=ZS[c.ri(0,4)];
  omp_set_num_threads(c.ri(1,4));
  auto e=g.a2d(); e.geotransform={100,lx,0,200,0,-ly};
  c.begin(std::string(tn)+" cell "+str(lx)+"x"+str(ly)+" zscale "+str(zs)+": "+g.show());
  const int PW[]={0,3,7}; auto mk=[&](){ Array2D<float> o(PW[c.ri(1,2)],PW[c.ri(1,2)],5.0f); o.setNoData(-12345.5f); return o; };
  std::vector<Array2D<float>> o; for(int k=0;k<8;k++) o.push_back(mk());
  TA_slope_riserun(e,o[0],zs); TA_slope_percentage(e,o[1],zs); TA_slope_radians(e,o[2],zs); TA_slope_degrees(e,o[3],zs); TA_aspect(e,o[4],zs); TA_curvature(e,o[5],zs); TA_planform_curvature(e,o[6],zs); TA_profile_curvature(e,o[7],zs);
  static const char *NM[]={"slope rise/run","slope percentage","slope radians","slope degrees","aspect","curvature","planform curvature","profile curvature"};
  for(int k=0;k<8;k++) if(o[k].width()!=w||o[k].height()!=h||o[k].noData()!=-12345.5f){ c.fail(NM[k],"dimensions or NoData value of the result"); return; }
  for(int y=0;y<h;y++)for(int x=0;x<w;x++){
    const std::string at=" at ("+str(x)+","+str(y)+")";
    if(g.isnd(x,y)){ for(int k=0;k<8;k++) c.check(o[k](x,y)==-12345.5f,NM[k],"NoData cell has a value"+at); continue; }
    ld z[3][3],mx=0; for(int j=-1;j<=1;j++)for(int i=-1;i<=1;i++){ const int a=x+i,b=y+j; z[j+1][i+1]=(ld)(double)(g.in(a,b)&&!g.isnd(a,b)?g.at(a,b):g.at(x,y))*(ld)zs; mx=std::max(mx,std::fabs(z[j+1][i+1])); }
    const ld gx=((z[0][2]+2*z[1][2]+z[2][2])-(z[0][0]+2*z[1][0]+z[2][0]))/8/lx, gy=((z[2][0]+2*z[2][1]+z[2][2])-(z[0][0]+2*z[0][1]+z[0][2]))/8/ly;
    const ld rr=std::sqrt(gx*gx+gy*gy), ge=mx*1e-14L/std::min(lx,ly);   // error of the gradient in double arithmetic
    auto cmp=[&](int k,ld v,ld tol){ const float f=o[k](x,y); c.check(std::fabs((ld)f-v)<=tol+std::fabs(v)*1e-6L,NM[k],"is "+str(f)+" instead of "+str((double)v)+at); };
    const ld pi=std::acos((ld)-1);
    cmp(0,rr,4*ge); cmp(1,rr*100,400*ge); cmp(2,std::atan(rr),4*ge); cmp(3,std::atan(rr)*180/pi,240*ge);
    const float as=o[4](x,y); c.check(as>=0&&as<=360,NM[4],"out of range: "+str(as)+at);
    if(rr>1e3L*ge&&rr>0){ ld a=std::atan2(-gx,gy)*180/pi; if(a<0) a+=360;   // clockwise from north (towards row 0), the direction downhill
      ld d=std::fabs((ld)as-a); d=std::min(d,360-d); c.check(d<=1e-4L+100*ge/rr,NM[4],"is "+str(as)+" instead of "+str((double)a)+at); }
    const ld L2=(ld)lx*lx,D=((z[1][0]+z[1][2])/2-z[1][1])/L2,E=((z[0][1]+z[2][1])/2-z[1][1])/L2,F=(-z[0][0]+z[0][2]+z[2][0]-z[2][2])/4/L2,G=(z[1][2]-z[1][0])/2/lx,H=(z[0][1]-z[2][1])/2/lx;
    const ld ce=mx*1e-14L/L2; cmp(5,-200*(D+E),800*ce);
    const ld q=G*G+H*H, qe=mx*1e-14L/lx;
    if(G==0&&H==0){ if(std::is_integral<T>::value&&zs==1.0f&&(lx==1||lx==0.5)){ cmp(6,0,0); cmp(7,0,0); } }
    else if(std::sqrt(q)>1e3L*qe){ const ld rel=20*qe/std::sqrt(q), mag=(std::fabs(D)+std::fabs(E)+std::fabs(F)+ce)*200; cmp(6,-200*(D*H*H+E*G*G-F*G*H)/q,mag*(rel+1e-12L)+1600*ce); cmp(7,200*(D*G*G+E*H*H+F*G*H)/q,mag*(rel+1e-12L)+1600*ce); }
  }
}
int main(){ Ctl c; c.rule="random rasters up to 24x24 of six element types with NoData cells, various cell sizes and z-scales, 1-4 threads";
  while(c.more()){ one<double>(c,"double"); one<float>(c,"float"); one<int32_t>(c,"int32"); one<uint8_t>(c,"uint8"); one<int16_t>(c,"int16"); one<double>(c,"double"); }
  return c.finish(); }
