// P04: order of grid cells over special elevations, and histories of the priority queues, against a sorted list
#include <cstdint>
#include <richdem/common/grid_cell.hpp>
#include "common.hpp"
#include <list>
using namespace rdv; using namespace richdem;
template<class T> bool nanv(T v){ return v!=v; }
template<class T> bool below(T a,T b){ return (nanv(a)&&!nanv(b))||(!nanv(a)&&!nanv(b)&&a<b); }
template<class T> bool level(T a,T b){ return !below(a,b)&&!below(b,a); }
template<class T> std::vector<T> specials(){ typedef std::numeric_limits<T> L; std::vector<T> v={T(0),T(1),T(2),L::max(),L::lowest(),L::min(),T(7)}; if(L::is_signed){ v.push_back(T(-1)); v.push_back(T(-7)); }
  if(std::is_floating_point<T>::value){ T z=0; for(T q:{L::infinity(),T(-L::infinity()),L::quiet_NaN(),T(-L::quiet_NaN()),L::signaling_NaN(),T(-z),L::denorm_min(),T(-L::denorm_min()),L::epsilon(),T(T(1)+L::epsilon()),T(1e-300),T(0.1),T(T(1)/T(3))}) v.push_back(q); }
  return v; }
// the generic cell has only operator>
template<class T,bool F=std::is_floating_point<T>::value> struct Rel { static void go(Ctl &c,const GridCellZ<T>&p,const GridCellZ<T>&q,const std::string&w){ T a=p.z,b=q.z;
  c.check((p<q)==below(a,b),"operator<",w); c.check((p>q)==below(b,a),"operator>",w); c.check((p<=q)==!below(b,a),"operator<=",w); c.check((p>=q)==!below(a,b),"operator>=",w); c.check((p==q)==level(a,b),"operator==",w); c.check((p!=q)==!level(a,b),"operator!=",w); } };
template<class T> struct Rel<T,false> { static void go(Ctl &c,const GridCellZ<T>&p,const GridCellZ<T>&q,const std::string&w){ c.check((p>q)==below(q.z,p.z),"operator>",w); } };
template<class T> void pair(Ctl &c,T a,T b,int k1,int k2,const std::string&tn){ std::string w=tn+" elevations "+str(a)+(nanv(a)?"(nan)":"")+" and "+str(b)+", insertions "+str(k1)+" and "+str(k2); c.begin(w);
  GridCellZ<T> p(1,2,a),q(3,4,b); Rel<T>::go(c,p,q,w); c.check(p.isnan()==nanv(a),"isnan",w); c.check(p.x==1&&p.y==2,"construction",w);
  GridCellZk_low<T> lp(1,2,a,k1),lq(3,4,b,k2); GridCellZk_high<T> hp(1,2,a,k1),hq(3,4,b,k2);
  c.check((lp>lq)==(below(b,a)||(level(a,b)&&k1>k2)),"low operator>",w); c.check((hp>hq)==(below(b,a)||(level(a,b)&&k1<k2)),"high operator>",w); }
template<class T> struct E { T z; int id; };
template<class T,class Q,int MODE> void history(Ctl &c,const std::string&tn,int n,const std::vector<T>&sp){ Q q; std::list<E<T>> l; std::string h=tn+":"; int id=0; int few=c.ri(1,(int)sp.size()); int spread=c.ri(0,2);
  for(int s=0;s<n;s++){ if(c.ri(0,4)<3-(s>n/2?2:0)||l.empty()){ T z=spread==0?sp[c.ri(0,few-1)]:spread==1?(T)c.ri(0,5):(T)c.ri(0,200); q.emplace(id,-id,z); l.push_back(E<T>{z,id}); h+=" push "+str(z)+(nanv(z)?"(nan)":"")+";"; id++; }
    else { h+=" pop;"; auto b=l.begin(); for(auto i=l.begin();i!=l.end();++i) if(below(i->z,b->z)||(MODE==1&&level(i->z,b->z)&&i->id>b->id)) b=i;   // the first of the lowest, or the last of them
      auto t=q.top(); c.begin(h); if(MODE==2){ bool ok=false; for(auto i=l.begin();i!=l.end();++i) if(i->id==t.x){ ok=level(i->z,b->z); if(ok){ l.erase(i); } break; } c.check(ok,"order","cell "+str(t.x)+" is not among the lowest, after "+h); if(!ok) return; }
      else { c.check(t.x==b->id&&t.y==-b->id&&(t.z==b->z||(nanv(t.z)&&nanv(b->z))),"order",std::string(MODE?"high":"low")+" queue returned insertion "+str(t.x)+", not "+str(b->id)+" after "+h); if(t.x!=b->id) return; l.erase(b); }
      q.pop(); }
    if(q.size()!=l.size()||q.empty()!=l.empty()){ c.fail("size","size "+str(q.size())+" after "+h); return; } } }
template<class T> void all(Ctl &c,const std::string&tn,bool pairs){ auto sp=specials<T>();
  if(pairs){ for(T a:sp)for(T b:sp)for(int k1=0;k1<3;k1++)for(int k2=0;k2<3;k2++) pair<T>(c,a,b,k1,k2,tn); pair<T>(c,T(1),T(1),2147483647,1,tn); }
  else { std::shuffle(sp.begin(),sp.end(),c.rng); int n=c.ri(1,c.ri(0,9)?30:400); history<T,GridCellZk_low_pq<T>,0>(c,tn,n,sp); history<T,GridCellZk_high_pq<T>,1>(c,tn,n,sp); history<T,GridCellZ_pq<T>,2>(c,tn,n,sp); } }
static void types(Ctl &c,bool p){ all<double>(c,"double",p); all<float>(c,"float",p); all<int32_t>(c,"int32",p); all<uint8_t>(c,"uint8",p); all<int16_t>(c,"int16",p); all<uint32_t>(c,"uint32",p); all<int64_t>(c,"int64",p); }
int main(){ Ctl c; c.rule="all pairs of special elevations (NaN, infinities, signed zeros, denormals, extremes) of seven types, and random push/pop histories of up to 400 operations on the three queues"; types(c,true); while(c.more()) types(c,false); return c.finish(); }
