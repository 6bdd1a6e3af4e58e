// P22: ArcGIS codes
#include "common.hpp"
#include <richdem/misc/conversion.hpp>
using namespace rdv; using namespace richdem;
int main(){ Ctl c; c.rule="every code alone, random rasters of valid codes up to 20x20";
  const int DX[8]={1,1,0,-1,-1,-1,0,1},DY[8]={0,1,1,1,0,-1,-1,-1};
  auto check=[&](const std::vector<int> &v,int w,int h){ std::ostringstream o; o<<w<<"x"<<h<<" "; for(int a:v) o<<a<<" "; c.begin("convert_arc "+o.str());
    Array2D<d8_flowdir_t> a(w,h,0),d(w,h,77); bool bad=false; for(int i=0;i<w*h;i++){ a(i)=v[i]; bool k=v[i]==0; for(int b=0;b<8;b++) k|=v[i]==1<<b; bad|=!k; }
    bool threw=false; try{ convert_arc_flowdirs_to_richdem_d8(a,d); }catch(const std::exception&){ threw=true; }
    if(threw!=bad){ c.fail("convert_arc",bad?"unknown code accepted":"valid codes refused"); return; } if(bad) return;
    for(int i=0;i<w*h;i++){ if(a(i)!=v[i]){ c.fail("convert_arc","input changed"); return; } int n=d(i); bool ok; if(v[i]==0) ok=n==0; else { int b=0; while(1<<b!=v[i]) b++; ok=n>=1&&n<=8&&X8[n]==DX[b]&&Y8[n]==DY[b]; }
      if(!ok){ c.fail("convert_arc","cell "+str(i)+" with code "+str(v[i])+" becomes "+str(n)); return; } } };
  for(int k=0;k<256;k++) check({k},1,1);
  while(c.more()){ int w=c.ri(1,20),h=c.ri(1,20); std::vector<int> v(w*h); for(auto &a:v){ int b=c.ri(0,8); a=b==8?0:1<<b; } if(c.ri(0,3)==0) v[c.ri(0,w*h-1)]=c.ri(0,255); check(v,w,h); }
  return c.finish(); }
