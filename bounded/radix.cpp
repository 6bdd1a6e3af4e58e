// P17: encoders, buckets, and monotone histories of radix heaps against a multiset
#include <richdem/common/radix_heap.hpp>
#include "common.hpp"
using namespace rdv;
namespace rh=radix_heap; namespace internal=radix_heap::internal;
template<class K> const char *tn(){ return std::is_same<K,float>::value?"float":std::is_same<K,double>::value?"double":std::is_signed<K>::value?(sizeof(K)==1?"int8":sizeof(K)==2?"int16":sizeof(K)==4?"int32":"int64"):(sizeof(K)==1?"uint8":sizeof(K)==2?"uint16":sizeof(K)==4?"uint32":"uint64"); }
template<class K> K key(Ctl &c,int mode){
  if(mode==0) return (K)c.ri(0,12);
  if(mode==1){ K l=std::numeric_limits<K>::lowest(),h=std::numeric_limits<K>::max(); switch(c.ri(0,7)){ case 0: return l; case 1: return h; case 2: return K(0); case 3: return K(1); case 4: return std::is_signed<K>::value?K(-1):K(2); case 5: return std::numeric_limits<K>::has_infinity?(c.ri(0,1)?std::numeric_limits<K>::infinity():-std::numeric_limits<K>::infinity()):K(h-1); case 6: return std::numeric_limits<K>::is_integer?K(l+1):std::numeric_limits<K>::denorm_min(); default: return std::numeric_limits<K>::is_integer?K(h/2):-std::numeric_limits<K>::denorm_min(); } }
  if(mode==2) return (K)(std::is_signed<K>::value?c.ri(-100,27):c.ri(0,100));
  uint64_t r=c.rng(); K k; memcpy(&k,&r,sizeof k); if(k!=k) return K(1); return k;
}
template<class K> void codec(Ctl &c){
  typedef internal::encoder<K> E; int mode=c.ri(1,3); K a=key<K>(c,mode),b=key<K>(c,mode); c.begin(std::string("encoder<")+tn<K>()+"> of "+str(a)+" and "+str(b));
  auto ea=E::encode(a),eb=E::encode(b); K d=E::decode(ea);
  c.check(memcmp(&d,&a,sizeof a)==0,std::string("decode ")+tn<K>(),"decode(encode(x)) is "+str(d));
  if(a<b) c.check(ea<eb,std::string("order ")+tn<K>(),"the codes are not in order");
  if(b<a) c.check(eb<ea,std::string("order ")+tn<K>(),"the codes are not in order");
}
// -0.0 is coded below 0.0, so equal keys may have two codes: keys of a heap keep to one zero
template<class K> K norm(K k){ return k==K(0)?K(0):k; }
template<class K> struct It { K k; int v; };
template<class K,class H> void plain(Ctl &c,int steps){
  H h,h2; std::multiset<K> m; int mode=c.ri(0,3); K last{}; bool has=false; std::string s=std::string("radix_heap<")+tn<K>()+">:";
  auto bad=[&](const std::string&k,const std::string&w){ c.fail(k+" "+tn<K>(),w+" after "+s); };
  for(int i=0;i<steps;i++){
    int op=c.ri(0,15);
    if(op<7){ K k=norm(key<K>(c,mode)); if(has&&k<last){ if(c.ri(0,3)) k=last; else continue; } s+=" push("+str(k)+")"; c.begin(s); h.push(k); m.insert(k); }
    else if(op<11){ if(m.empty()) continue; s+=" pop"; c.begin(s); last=*m.begin(); has=true; h.pop(); m.erase(m.begin()); }
    else if(op==11){ if(m.empty()) continue; s+=" top"; c.begin(s); K t=h.top(); last=*m.begin(); has=true; if(!(t==*m.begin())) return bad("top","top is "+str(t)+", least is "+str(*m.begin())); }
    else if(op==12){ if(m.empty()) continue; s+=" min"; c.begin(s); K t=h.min(); if(!(t==*m.begin())) return bad("min","min is "+str(t)+", least is "+str(*m.begin())); }
    else if(op==13){ if(c.ri(0,5)) continue; s+=" clear"; c.begin(s); h.clear(); m.clear(); has=false; }
    else if(op==14){ s+=" swap"; c.begin(s); H t; if(c.ri(0,1)){ h.swap(t); } else t.swap(h); if(!h.empty()) return bad("swap","the other heap was empty"); h=t; }
    else { s+=" copy"; c.begin(s); H t(h); h2=t; h.swap(h2); }
    if(h.size()!=m.size()||h.empty()!=m.empty()) return bad("size","size is "+str(h.size())+", "+str(m.size())+" are in it");
  }
  while(!m.empty()){ c.begin(s+" drain"); K t=h.top(); if(!(t==*m.begin())) return bad("top","draining: top is "+str(t)+", least is "+str(*m.begin())); h.pop(); m.erase(m.begin()); s+=" pop"; }
  if(!h.empty()) bad("size","not empty once all was popped");
}
template<class K,bool TV> struct TopVals { template<class H> static void get(H &h,std::vector<std::string>&o){ auto t=h.top_values(); for(auto i=std::get<0>(t);i!=std::get<1>(t);++i) o.push_back(i->second); } };
template<class K> struct TopVals<K,false> { template<class H> static void get(H &h,std::vector<std::string>&){ } };
template<class K,bool TV> void pairs(Ctl &c,int steps){
  typedef rh::pair_radix_heap<K,std::string> H; H h,h2; std::map<K,std::multiset<std::string>> m; size_t n=0; int mode=c.ri(0,3); K last{}; bool has=false; std::string s=std::string("pair_radix_heap<")+tn<K>()+">:"; int serial=0;
  auto bad=[&](const std::string&k,const std::string&w){ c.fail("pair "+k+" "+tn<K>(),w+" after "+s); };
  auto take=[&](const std::string &v){ auto it=m.begin(); auto j=it->second.find(v); if(j==it->second.end()) return false; it->second.erase(j); if(it->second.empty()) m.erase(it); n--; return true; };
  auto strs=[&](std::vector<std::string> v){ std::sort(v.begin(),v.end()); return v; };
  for(int i=0;i<steps||n;i++){
    int op=i<steps?c.ri(0,19):c.ri(8,11);
    if(op<8){ K k=norm(key<K>(c,mode)); if(has&&k<last){ if(c.ri(0,3)) k=last; else continue; } std::string v="v"+str(serial++%7); s+=" push("+str(k)+","+v+")"; c.begin(s); int w=c.ri(0,2); if(w==0) h.push(k,v); else if(w==1){ std::string t=v; h.push(k,std::move(t)); } else h.emplace(k,v.c_str()); m[k].insert(v); n++; }
    else if(n==0&&op<16) continue;
    else if(op<12){ s+=" pop"; c.begin(s); K k=h.top_key(); if(!(k==m.begin()->first)) return bad("top_key","top_key is "+str(k)+", least is "+str(m.begin()->first)); std::string v=h.top_value(); last=k; has=true; h.pop(); if(!take(v)) return bad("top_value",v+" is not held under "+str(k)); }
    else if(op==12){ s+=" min_key"; c.begin(s); K k=h.min_key(); if(!(k==m.begin()->first)) return bad("min_key","min_key is "+str(k)+", least is "+str(m.begin()->first)); }
    else if(op==13){ s+=" top_values"; c.begin(s); if(TV){ std::vector<std::string> o; TopVals<K,TV>::get(h,o); last=m.begin()->first; has=true; if(strs(o)!=std::vector<std::string>(m.begin()->second.begin(),m.begin()->second.end())) return bad("top_values","are not the values under the least key"); } }
    else if(op==14){ s+=" pop_top_values"; c.begin(s); last=m.begin()->first; has=true; n-=m.begin()->second.size(); h.pop_top_values(); m.erase(m.begin()); }
    else if(op==15){ s+=" extract_top_values"; c.begin(s); last=m.begin()->first; has=true; auto v=h.extract_top_values(); std::vector<std::string> o; for(auto &x:v){ o.push_back(x.second); if(x.first!=internal::encoder<K>::encode(last)) return bad("extract_top_values","has another key"); } if(strs(o)!=std::vector<std::string>(m.begin()->second.begin(),m.begin()->second.end())) return bad("extract_top_values","are not the values under the least key"); n-=o.size(); m.erase(m.begin()); }
    else if(op==16){ if(c.ri(0,5)) continue; s+=" clear"; c.begin(s); h.clear(); m.clear(); n=0; has=false; }
    else if(op==17){ s+=" swap"; c.begin(s); H t; if(c.ri(0,1)){ h.swap(t); } else t.swap(h); if(!h.empty()) return bad("swap","the other heap was empty"); h=t; }
    else { s+=" copy"; c.begin(s); H t(h); h2=t; h.swap(h2); h2.clear(); }
    if(h.size()!=n||h.empty()!=(n==0)) return bad("size","size is "+str(h.size())+", "+str(n)+" are in it");
  }
}
template<class K> void all(Ctl &c,int k){ codec<K>(c); codec<K>(c); plain<K,rh::radix_heap<K>>(c,k); pairs<K,std::is_integral<K>::value&&!std::is_signed<K>::value>(c,k); }
void round(Ctl &c,int k){ all<uint8_t>(c,k); all<uint16_t>(c,k); all<uint32_t>(c,k); all<uint64_t>(c,k); all<int8_t>(c,k); all<int16_t>(c,k); all<int32_t>(c,k); all<int64_t>(c,k); all<float>(c,k); all<double>(c,k); }
int main(){ Ctl c; c.rule="encoders on extreme, small and random keys of ten key types; random monotone histories of up to 60 operations on radix_heap and pair_radix_heap";
  for(int v=-128;v<128;v++)for(int w=-128;w<128;w++){ c.begin("encoder<int8> of "+str(v)+" and "+str(w)); auto a=internal::encoder<int8_t>::encode(v),b=internal::encoder<int8_t>::encode(w); c.check((a<b)==(v<w),"order int8","the codes are not in order"); }
  for(int k=0;k<300;k++) round(c,c.ri(1,8)); while(c.more()) round(c,c.ri(1,60)); return c.finish(); }
