// P03: histories of storage operations on rasters and their buffers, against a plain model
#include <new>
#include <cstdlib>
#include <stdexcept>
static long live_arrays=0; static bool foreign=false; static char *ext_lo=nullptr,*ext_hi=nullptr;
void* operator new[](std::size_t n){ live_arrays++; void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
static void del(void*p){ if(!p) return; if((char*)p>=ext_lo&&(char*)p<ext_hi){ foreign=true; return; } live_arrays--; free(p); }
void operator delete[](void*p) noexcept { del(p); }
void operator delete[](void*p,std::size_t) noexcept { del(p); }
#include "common.hpp"
#include <memory>
#include <optional>
using namespace rdv; using namespace richdem;
static const int NB=3, BL=64, NS=4;
// a slot of the model: contents, or the wrapped buffer it shows
template<class T> struct Model { bool live=false; int wrap=-1; std::vector<T> v; int w=0,h=0; };
template<class T> struct Bufs { T *b[NB]; std::vector<T> shadow[NB]; };
template<class T> const T &val(const Model<T>&m,const Bufs<T>&B,size_t i){ return m.wrap>=0?B.shadow[m.wrap][i]:m.v[i]; }
template<class T> size_t len(const Model<T>&m){ return m.v.size(); }
template<class T> std::vector<T> contents(const Model<T>&m,const Bufs<T>&B){ std::vector<T> r; for(size_t i=0;i<m.v.size();i++) r.push_back(val(m,B,i)); return r; }
template<class T,class U> void history(Ctl &c,const std::string &tn,int steps){
  typedef ManagedVector<T> MV; typedef Array2D<T> A;
  const long base=live_arrays; foreign=false; std::string hist=tn+":";
  { Bufs<T> B; char *arena=(char*)malloc(sizeof(T)*NB*BL); ext_lo=arena; ext_hi=arena+sizeof(T)*NB*BL;
    for(int k=0;k<NB;k++){ B.b[k]=(T*)arena+k*BL; B.shadow[k].resize(BL); for(int i=0;i<BL;i++) B.b[k][i]=B.shadow[k][i]=(T)(k*BL+i); }
    { std::unique_ptr<MV> m[NS]; std::unique_ptr<A> a[NS]; Model<T> mm[NS], ma[NS]; bool dead=false;
      auto bad=[&](const std::string&k,const std::string&w){ c.fail(k,w+" after"+hist); dead=true; };
      auto eqm=[&](int i,const char*op){ if(mm[i].live!=(bool)m[i]) return; if(!m[i]) return; if(m[i]->size()!=len(mm[i])||m[i]->empty()!=(len(mm[i])==0)) return bad(op,"slot "+str(i)+" has "+str(m[i]->size())+" elements, not "+str(len(mm[i])));
        if(len(mm[i])&&m[i]->owned()!=(mm[i].wrap<0)) return bad(op,"slot "+str(i)+" ownership"); if(mm[i].wrap>=0&&len(mm[i])&&m[i]->data()!=B.b[mm[i].wrap]) return bad(op,"slot "+str(i)+" no longer shows the wrapped memory");
        for(size_t k=0;k<len(mm[i]);k++) if((*m[i])[k]!=val(mm[i],B,k)) return bad(op,"slot "+str(i)+" element "+str(k)); };
      auto eqa=[&](int i,const char*op){ if(!a[i]) return; if(a[i]->empty()!=(len(ma[i])==0)) return bad(op,"raster "+str(i)+" emptiness"); if(!len(ma[i])) return; if(a[i]->width()!=ma[i].w||a[i]->height()!=ma[i].h||a[i]->size()!=len(ma[i])||a[i]->owned()!=(ma[i].wrap<0)) return bad(op,"raster "+str(i)+" dimensions or ownership");
        if(ma[i].wrap>=0&&a[i]->data()!=B.b[ma[i].wrap]) return bad(op,"raster "+str(i)+" no longer shows the wrapped memory");
        for(size_t k=0;k<len(ma[i]);k++) if((*a[i])((uint32_t)k)!=val(ma[i],B,k)) return bad(op,"raster "+str(i)+" cell "+str(k)); };
      auto moved=[](Model<T>&s){ s.v.clear(); s.wrap=-1; };
      for(int st=0;st<steps&&!dead;st++){
        const int i=c.ri(0,NS-1),j=c.ri(0,NS-1),op=c.ri(0,11); const size_t n=c.ri(0,9); const T v=(T)c.ri(0,99); const int k=c.ri(0,NB-1); const bool ras=c.ri(0,1); const char*nm="?";
        const int w=c.ri(1,6),h=c.ri(1,6);
        auto log=[&](const char*o){ nm=o; hist+=std::string(" ")+(ras?"raster ":"buffer ")+o+"("+str(i)+","+str(j)+","+str(ras?w*h:n)+");"; c.begin(hist); };
        if(!ras) switch(op){
          case 0: log("create"); m[i].reset(new MV(n,v)); mm[i]=Model<T>(); mm[i].live=true; mm[i].v.assign(n,v); break;
          case 1: log("wrap"); m[i].reset(new MV(B.b[k],(size_t)n)); mm[i]=Model<T>(); mm[i].live=true; mm[i].v.resize(n); mm[i].wrap=k; break;
          case 2: log("default"); m[i].reset(new MV()); mm[i]=Model<T>(); mm[i].live=true; break;
          case 3: if(!m[j]||i==j) break; log("copy"); m[i].reset(new MV(*m[j])); { auto q=contents(mm[j],B); mm[i]=Model<T>(); mm[i].live=true; mm[i].v=q; } break;
          case 4: if(!m[j]||i==j) break; log("move"); m[i].reset(new MV(std::move(*m[j]))); mm[i]=mm[j]; moved(mm[j]); break;
          case 5: case 6: if(!m[i]||!m[j]) break; log("copy-assign"); *m[i]=*m[j]; { auto q=contents(mm[j],B); mm[i]=Model<T>(); mm[i].live=true; mm[i].v=q; } break;
          case 7: case 8: if(!m[i]||!m[j]) break; log("move-assign"); *m[i]=std::move(*m[j]); if(i!=j){ mm[i]=mm[j]; moved(mm[j]); } break;
          case 9: if(!m[i]) break; log("resize"); { const size_t o=len(mm[i]); bool t=false; try{ m[i]->resize(n); }catch(std::exception&){ t=true; } if(t!=(mm[i].wrap>=0&&o!=n)) bad("resize","of wrapped memory is not refused, or of owned memory is"); if(!t&&o!=n){ mm[i].v.assign(n,v); for(size_t q=0;q<n;q++) (*m[i])[q]=v; if(m[i]->size()!=n) bad("resize","has size "+str(m[i]->size())); } } break;
          case 10: if(!m[i]) break; log("destroy"); m[i].reset(); mm[i]=Model<T>(); break;
          case 11: if(!m[i]||!len(mm[i])) break; log("write"); { size_t q=c.ri(0,(int)len(mm[i])-1); (*m[i])[q]=v; if(mm[i].wrap>=0) B.shadow[mm[i].wrap][q]=v; else mm[i].v[q]=v; } break;
        } else switch(op){
          case 0: log("create"); a[i].reset(new A(w,h,v)); ma[i]=Model<T>(); ma[i].live=true; ma[i].w=w; ma[i].h=h; ma[i].v.assign((size_t)w*h,v); break;
          case 1: log("wrap"); a[i].reset(new A(B.b[k],w,h)); ma[i]=Model<T>(); ma[i].live=true; ma[i].w=w; ma[i].h=h; ma[i].wrap=k; ma[i].v.resize((size_t)w*h); break;
          case 2: if(!a[j]||!len(ma[j])) break; log("from-template"); { Array2D<U> u(*a[j],(U)3); const Array2D<T> t(u,v); if(u.width()!=ma[j].w||u.height()!=ma[j].h||t.size()!=len(ma[j])) bad(nm,"dimensions"); for(uint32_t q=0;q<t.size();q++) if(t(q)!=v||u(q)!=(U)3) bad(nm,"contents"); } break;
          case 3: if(!a[j]||i==j) break; log("copy"); a[i].reset(new A(*a[j])); { auto q=contents(ma[j],B); int ww=ma[j].w,hh=ma[j].h; ma[i]=Model<T>(); ma[i].live=true; ma[i].v=q; ma[i].w=ww; ma[i].h=hh; } break;
          case 4: if(!a[j]||i==j) break; log("move"); a[i].reset(new A(std::move(*a[j]))); ma[i]=ma[j]; moved(ma[j]); break;
          case 5: case 6: if(!a[i]||!a[j]) break; log("copy-assign"); *a[i]=*a[j]; { auto q=contents(ma[j],B); int ww=ma[j].w,hh=ma[j].h; ma[i]=Model<T>(); ma[i].live=true; ma[i].v=q; ma[i].w=ww; ma[i].h=hh; } break;
          case 7: case 8: if(!a[i]||!a[j]||i==j) break; log("move-assign"); *a[i]=std::move(*a[j]); ma[i]=ma[j]; moved(ma[j]); break;
          case 9: if(!a[i]) break; log("resize"); { const size_t o=len(ma[i]); bool t=false; try{ a[i]->resize(w,h,v); }catch(std::exception&){ t=true; } if(t!=(ma[i].wrap>=0&&o!=(size_t)w*h)) bad("resize","of a wrapped raster is not refused, or of an owning one is"); if(t){ a[i].reset(); ma[i]=Model<T>(); } else { ma[i].w=w; ma[i].h=h; ma[i].v.assign((size_t)w*h,v); if(ma[i].wrap>=0) for(int q=0;q<w*h;q++) B.shadow[ma[i].wrap][q]=v; } } break;
          case 10: if(!a[i]) break; if(c.ri(0,1)){ log("destroy"); a[i].reset(); ma[i]=Model<T>(); } else { log("clear"); a[i]->clear(); ma[i].v.clear(); ma[i].wrap=-1; } break;
          case 11: if(!a[i]||!len(ma[i])) break; log("write"); { size_t q=c.ri(0,(int)len(ma[i])-1); (*a[i])((uint32_t)q)=v; if(ma[i].wrap>=0) B.shadow[ma[i].wrap][q]=v; else ma[i].v[q]=v; } break;
        }
        // buffers converted from another element type
        if(!ras&&op==3&&m[j]&&!dead){ const ManagedVector<U> u(*m[j]); MV q; q=u; if(u.size()!=len(mm[j])||!u.owned()||q.size()!=len(mm[j])||!q.owned()) bad("convert","size or ownership"); else for(size_t x=0;x<u.size();x++) if(u[x]!=(U)val(mm[j],B,x)||q[x]!=(T)(U)val(mm[j],B,x)) bad("convert","element "+str(x)); }
        for(int q=0;q<NS&&!dead;q++){ eqm(q,nm); if(!dead) eqa(q,nm); }
        for(int q=0;q<NB&&!dead;q++) for(int x=0;x<BL;x++) if(B.b[q][x]!=B.shadow[q][x]){ bad("wrapped","wrapped memory "+str(q)+" was overwritten at "+str(x)); break; }
        if(foreign){ bad("foreign","memory that is only wrapped was released"); foreign=false; }
      }
      if(dead) for(int q=0;q<NS;q++){ m[q].release(); a[q].release(); }     // do not run destructors over a broken state
      if(dead) return;
    }
    if(foreign) c.fail("foreign","memory that is only wrapped was released when the last owner died, after"+hist);
    free(arena); ext_lo=ext_hi=nullptr;
  }
  if(live_arrays!=base) c.fail("leak",str(live_arrays-base)+" arrays are not released exactly once, after"+hist);
}
int main(){
  Ctl c; c.rule="random histories of up to 40 operations on 4 buffers and 4 rasters, owned and wrapping, self-assignment and element type conversion included";
  for(int k=0;k<2000;k++){ history<double,float>(c,"double",c.ri(1,6)); history<int32_t,double>(c,"int32",c.ri(1,6)); }
  while(c.more()){ history<double,float>(c,"double",c.ri(1,40)); history<int32_t,double>(c,"int32",c.ri(1,40)); history<uint8_t,int32_t>(c,"uint8",c.ri(1,40)); }
  return c.finish();
}
