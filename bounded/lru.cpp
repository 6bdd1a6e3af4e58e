// P18: histories of the recency list against a plain vector
#include <richdem/tiled/lru.hpp>
#include "common.hpp"
using namespace rdv;
template<class T> T mk(int); template<> int mk<int>(int k){ return k-1; } template<> std::string mk<std::string>(int k){ return k?std::string(k*7,'a'+k%26):std::string(); } template<> void* mk<void*>(int k){ return (void*)(size_t)(k*8); }
template<class T> std::string sh(const T&v){ return str(v); } template<> std::string sh(const std::string&v){ return "'"+v+"'"; } template<> std::string sh(void*const&v){ return str((size_t)v); }
template<class T> void history(Ctl &c,const char *tn,int items,int steps,bool auto_prune){
  alignas(richdem::LRU<T>) unsigned char raw[sizeof(richdem::LRU<T>)]; memset(raw,c.ri(0,1)?0:0xff,sizeof raw); richdem::LRU<T> *p=new(raw) richdem::LRU<T>(); richdem::LRU<T>&l=*p;
  std::vector<T> m; int cap=-1; std::string s=std::string("LRU<")+tn+">:"; auto bad=[&](const char*k,const std::string&w){ c.fail(std::string(k)+" "+tn,w+" after "+s); };
  for(int i=0;i<steps;i++){
    int op=c.ri(0,9);
    if(op<5){ T v=mk<T>(c.ri(0,items)); s+=" insert("+sh(v)+")"; c.begin(s); l.insert(v); auto it=std::find(m.begin(),m.end(),v); if(it!=m.end()) m.erase(it); m.insert(m.begin(),v); if(auto_prune){ l.prune(); if(cap!=-1&&(int)m.size()>cap) m.resize(cap); } }
    else if(op==5){ if(m.empty()) continue; s+=" pop_back"; c.begin(s); l.pop_back(); m.pop_back(); }
    else if(op==6){ cap=c.ri(-1,items); s+=" setCapacity("+str(cap)+")"; c.begin(s); l.setCapacity(cap); }
    else if(op==7){ s+=" prune"; c.begin(s); l.prune(); if(cap!=-1&&(int)m.size()>cap) m.resize(cap); }
    else if(op==8){ if(m.empty()) continue; s+=" back"; c.begin(s); if(!(l.back()==m.back())) { bad("back","back() is "+sh(l.back())+", the least recent item is "+sh(m.back())); break; } }
    if(l.size()!=(int)m.size()){ bad("size","size is "+str(l.size())+", there are "+str(m.size())); break; }
    if(l.getCapacity()!=cap||l.full()!=((int)m.size()==cap)){ bad("full","full() is "+str(l.full())); break; }
    if(l.cache.size()!=m.size()||!std::equal(m.begin(),m.end(),l.cache.begin())){ bad("order","the list is not in recency order"); break; }
  }
  p->~LRU();
}
int main(){ Ctl c; c.rule="random histories of up to 80 operations over up to 20 items";
  auto all=[&](int a,int b){ history<int>(c,"int",a,b,c.ri(0,1)); history<std::string>(c,"string",a,b,c.ri(0,1)); history<void*>(c,"pointer",a,b,c.ri(0,1)); };
  for(int k=0;k<3000;k++) all(c.ri(1,4),c.ri(1,10)); while(c.more()) all(c.ri(1,20),c.ri(1,80)); return c.finish(); }
