// P16: histories of disjoint-set operations against an explicit partition
#include <stdexcept>
#include <string>
#include <richdem/common/disjoint_dense_int_set.hpp>
#include "common.hpp"
using namespace rdv;
static void history(Ctl &c,int n0,int maxe,int steps,bool expl){
  DisjointDenseIntSet a,b(n0); DisjointDenseIntSet &d=expl?b:a; std::string h=expl?"DisjointDenseIntSet("+str(n0)+");":"DisjointDenseIntSet();"; std::vector<unsigned> cls(expl?n0:0); for(unsigned i=0;i<cls.size();i++) cls[i]=i;
  auto grow=[&](unsigned n){ while(cls.size()<=n){ cls.push_back(cls.size()); } };
  unsigned fresh=1000000;
  std::map<unsigned,unsigned> rep;     // class -> representative seen last
  auto bad=[&](const std::string&k,const std::string&m){ c.fail(k,m+" after "+h); };
  for(int s=0;s<steps;s++){
    unsigned x=c.ri(0,maxe),y=c.ri(0,maxe); bool merged=false;
    switch(c.ri(0,6)){
      case 0: h+=" makeSet("+str(x)+");"; c.begin(h); d.makeSet(x); grow(x); break;
      case 1: case 2: { h+=" unionSet("+str(x)+","+str(y)+");"; c.begin(h); bool t=false; try{ d.unionSet(x,y); }catch(std::exception&){ t=true; } bool out=x>=cls.size()||y>=cls.size(); if(t!=out) return bad("unionSet","range check"); if(!out){ unsigned p=cls[x],q=cls[y]; if(p!=q){ for(auto&k:cls) if(k==q) k=p; rep.erase(p); rep.erase(q); } } break; }
      case 3: case 4: { h+=" mergeAintoB("+str(x)+","+str(y)+");"; c.begin(h); grow(x); grow(y); d.makeSet(x); d.makeSet(y); unsigned rb=d.findSet(y); d.mergeAintoB(x,y); unsigned p=cls[x],q=cls[y]; for(auto&k:cls) if(k==p) k=q; rep.erase(p); if(d.findSet(x)!=rb||d.findSet(y)!=rb) return bad("mergeAintoB","the representative is not that of B"); rep[q]=rb; break; }
      case 5: { h+=" mergeAintoB*("+str(x)+","+str(y)+");"; c.begin(h); unsigned rb=y<cls.size()?d.findSet(y):y; d.mergeAintoB(x,y); grow(x); grow(y); unsigned p=cls[x],q=cls[y]; for(auto&k:cls) if(k==p) k=q; rep.erase(p); if(d.findSet(y)!=rb) return bad("mergeAintoB","the representative is not that of B"); rep[q]=rb; break; }
      case 6: h+=" findSet("+str(x)+");"; c.begin(h); { bool t=false; try{ d.findSet(x); }catch(std::exception&){ t=true; } if(t!=(x>=cls.size())) return bad("findSet","range check"); } break;
    }
    if(!cls.empty()&&d.maxElement()!=cls.size()-1) return bad("maxElement","is "+str(d.maxElement()));
    if(c.ri(0,2)==0||s==steps-1){
      for(unsigned i=0;i<cls.size();i++){ unsigned r=d.findSet(i); if(r>=cls.size()||cls[r]!=cls[i]) return bad("representative","of "+str(i)+" is "+str(r)+", not a member of its set"); auto it=rep.find(cls[i]); if(it==rep.end()) rep[cls[i]]=r; else if(it->second!=r) return bad("representative","of "+str(i)+" changed"); }
      for(unsigned i=0;i<cls.size();i++)for(unsigned j=0;j<cls.size();j++) if(d.sameSet(i,j)!=(cls[i]==cls[j])) return bad("sameSet","of "+str(i)+" and "+str(j)+" is wrong");
    } }
}
int main(){ Ctl c; c.rule="random histories of up to 60 operations on up to 30 elements"; for(int k=0;k<3000;k++) history(c,c.ri(0,4),c.ri(1,4),c.ri(1,8),k%2); while(c.more()) history(c,c.ri(0,20),c.ri(1,30),c.ri(1,60),c.ri(0,1)); return c.finish(); }
