// C07: a modifying call that throws leaves the URL exactly as it was.
// Faults: malformed / ambiguous arguments, and failure of the k-th allocation inside the
// call for every k (the URL's allocator and global operator new share one counter).
#include "seq.hpp"
using namespace real;
static bool armed=false; static long countdown=-1; static bool fired=false;
static void alloc_event(){ if(armed&&countdown>=0&&countdown--==0){ fired=true; throw std::bad_alloc(); } }
void* operator new(size_t n){ alloc_event(); void* p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p,size_t) noexcept { std::free(p); }
void operator delete[](void* p,size_t) noexcept { std::free(p); }

template<class T> struct falloc
{
    typedef T value_type; falloc(){} template<class V> falloc(falloc<V> const&){}
    T* allocate(size_t n){ alloc_event(); bool a=armed; armed=false; T* p; try { p=reinterpret_cast<T*>(trk().get(n*sizeof(T),0)); } catch(...){ armed=a; throw; } armed=a; return p; }
    void deallocate(T* p,size_t n) noexcept { bool a=armed; armed=false; trk().put(reinterpret_cast<char*>(p),n*sizeof(T),0); armed=a; }
    template<class V> bool operator==(falloc<V> const&) const { return true; } template<class V> bool operator!=(falloc<V> const&) const { return false; }
};
typedef bu::basic_url<falloc<char>> furl;
template<class F> static res guarded(long k, F f)
{
    countdown=k; fired=false; armed=true;
    try { f(); armed=false; return r_ok; }
    catch(bu::invalid_part const&){ armed=false; return r_invalid; }
    catch(std::bad_alloc const&){ armed=false; return r_noalloc; }
    catch(mc::Fail const&){ armed=false; throw; }
    catch(std::exception const&){ armed=false; return r_other; }
    catch(...){ armed=false; return r_other; }
}
// performs the prefix, then the last call with the k-th allocation failing, for all k
static void one(mc::Args const& a)
{
    call last=unpack(a[a.n-1]);
    for(long k=-1;k<64;++k)
    {
        trk().reset();
        bool more;
        {
            furl v(bv(a[0])); size_t ret=0; string init(tosv(v.encoded_url())); U before;
            bool off=false;
            for(size_t i=1;i+1<a.n;++i)
            {
                call c=unpack(a[i]);
                if(ref::is_segment_op(c.o)){ size_t n=v.segments().size(); if(c.i>n||c.j>n){ off=true; break; } }
                do_call(v,c,ret);
            }
            string was(tosv(v.encoded_url()));
            if(off||!ref::parse(was,before)) return; // C06
            if(ref::is_segment_op(last.o)){ size_t n=v.segments().size(); bool ins=last.o==ref::o_insert||last.o==ref::o_insert_enc; if(last.i>n||(last.i==n&&!ins&&last.o!=ref::o_erase_range)||(last.o==ref::o_erase_range&&last.j>n)) return; }
            // the position is found outside the fault window, the call itself inside
            res r;
            if(ref::is_segment_op(last.o))
            {
                auto sg=v.segments(); auto it=sg.begin(), it2=sg.begin(); for(unsigned i=0;i<last.i;++i) ++it; for(unsigned i=0;i<last.j;++i) ++it2;
                r=guarded(k,[&]{ switch(last.o){ case ref::o_insert: sg.insert(it,bv(last.s)); break; case ref::o_insert_enc: sg.insert_encoded(it,bv(last.s)); break; case ref::o_replace: sg.replace(it,bv(last.s)); break; case ref::o_replace_enc: sg.replace_encoded(it,bv(last.s)); break; case ref::o_erase: sg.erase(it); break; default: sg.erase(it,it2); } });
            }
            else if(last.o==ref::o_assign){ U t; if(!ref::parse(last.s,t)) return; furl src(bv(last.s)); r=guarded(k,[&]{ v=src; }); }
            else r=guarded(k,[&]{ do_op(v,last,ret); });
            more= fired && k>=0;
            mc::transitions();
            string ctx=seq::history(a,a.n)+(k>=0?" with allocation "+std::to_string(k)+" failing":string());
            if(r!=r_ok)
            {
                MC_EQ("URL after the throw",v.encoded_url(),was);
                cmp_both(v,before,ctx+" (after the throw)",w_all,true);
                trk().check();
                MC_TRUE("data() is not inside the URL's own block",v.size()==0||trk().owns(v.data(),v.size()+1));
                // still fully usable: a growing, a shrinking and a re-assigning call behave as on a fresh object
                static const call follow[]={call(ref::o_enc_fragment,"a-fragment-that-needs-room"),call(ref::o_enc_query,""),call(ref::o_query,"x y"),call(ref::o_url,"z://q:r@s:5/t/u?v=w#x"),call(ref::o_url,"")};
                U m=before; size_t nx;
                for(auto& c: follow){ ref::verdict w=ref::apply(m,c,nx); res q=do_call(v,c,ret); MC_TRUE(string("after the throw, ")+describe(c)+" "+res_name(q),(q==r_ok)==(w==ref::v_ok)); cmp_both(v,m,ctx+" then "+describe(c),w_all,false); }
                mc::outcome(r==r_noalloc?"allocation failed, unchanged":r==r_invalid?"refused, unchanged":"other exception, unchanged");
            }
            else { mc::outcome("succeeded"); trk().check(); }
            if(k==-1) mc::visit(was+"\n"+a.s(a.n-1));
        }
        trk().check();
        if(!trk().live.empty()) mc::fail("a block is never returned ["+seq::history(a,a.n)+" k="+std::to_string(k)+"]");
        if(k>=0&&!more) break;
    }
    mc::traces();
}
static int k1=mc::add_kind("fault",one);
// construction: parse, copy; nothing leaks, source unchanged
static void ctor(mc::Args const& a)
{
    string s=a.s(0), ctx="construct from "+quote(s);
    for(long k=-1;k<16;++k)
    {
        trk().reset(); bool f1=false;
        {
            alignas(furl) char mem[sizeof(furl)]; furl* p=nullptr;
            res r=guarded(k,[&]{ p=new(mem) furl(bv(s)); });
            f1=fired; if(r==r_ok) p->~furl(); mc::transitions();
            U u; bool ok=ref::parse(s,u); (void)ok;
        }
        trk().check(); if(!trk().live.empty()) mc::fail("constructor leaks a block ["+ctx+" k="+std::to_string(k)+"]");
        U u; if(ref::parse(s,u))
        {
            { furl src(bv(s)); alignas(furl) char mem[sizeof(furl)]; furl* p=nullptr; res r=guarded(k,[&]{ p=new(mem) furl(src); }); f1=f1||fired; cmp_both(src,u,ctx+" copied from",w_all,false); if(r==r_ok){ cmp_both(*p,u,ctx+" copy",w_all,false); p->~furl(); mc::outcome("copied"); } else mc::outcome("copy failed, source unchanged"); mc::transitions(); }
            trk().check(); if(!trk().live.empty()) mc::fail("copy constructor leaks a block ["+ctx+" k="+std::to_string(k)+"]");
        }
        if(k>=0&&!f1) break;
    }
    mc::visit(s); mc::traces();
}
static int k2=mc::add_kind("construct",ctor);
void mc::setup()
{
    using seq::step;
    ops::add_long("every call on states with a long component",thorough,tier(0,1),[](string const& st, ref::call const& c){ seq::run_history(k1,st,{pack(c)}); });
    ops::calls s0=ops::setters(0), s1=ops::setters(1), s2=ops::setters(2);
    seq::add("every state x every call x every failing allocation", ops::states(tier(0,1)), {step{s2,2}}, k1);
    seq::add("every setter with spellings of what is there", ops::rich_states(), {step{s2,2,true}}, k1);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{ops::setters(1),0}}, k1);
    static const auto L=mc::lengths(1,tier(40,140),{65,100,128,129,256,300,1025,4097});
    mc::add_job("arguments of every length x every failing allocation",L.size(),[](size_t i)
    {
        using namespace ref; string a(L[i],'a'), d(L[i],'1'), e(L[i],' ');
        for(auto& st: ops::few_states()) for(int o: {o_url,o_origin,o_scheme,o_authority,o_userinfo,o_userinfo_part,o_user,o_enc_user,o_password,o_enc_password,o_password_part,o_host,o_enc_host,o_port,o_port_part,o_path,o_query,o_enc_query,o_query_part,o_fragment,o_enc_fragment,o_fragment_part,o_assign,o_insert,o_insert_enc,o_replace,o_replace_enc})
        {
            U u; ref::parse(st,u); unsigned at=0; if(o==o_replace||o==o_replace_enc){ size_t n=segments(u.path).size(); if(!n) continue; at=unsigned(n-1); }
            string v= o==o_port?d: o==o_port_part?":"+d: o==o_userinfo_part?a+"@": o==o_password_part?":"+a: o==o_query_part?"?"+a: o==o_fragment_part?"#"+a: o==o_path?"/"+a: o==o_origin?"y://"+a:
                o==o_user||o==o_password||o==o_host||o==o_query||o==o_fragment||o==o_insert||o==o_replace?e:a;
            seq::run_history(k1,st,{pack(call(o,v,at))});
            if(o!=o_assign) seq::run_history(k1,st,{pack(call(o,v+"\x01",at))}); // refused at the last character by the encoded ones
        }
    });
    seq::add("one call, then a failing call", ops::few_states(), {step{s1,0},step{s1,1}}, k1);
    if(thorough) seq::add("two calls, then a failing call", ops::few_states(), {step{s0,0},step{s0,0},step{s0,0}}, k1);
    strings st=ops::states(1); auto sp=std::make_shared<strings>(st);
    mc::add_job("constructors",16,[sp](size_t sh){ for(size_t i=sh;i<sp->size();i+=16){ mc::run(k2,(*sp)[i]); mc::run(k2,(*sp)[i]+"%"); mc::run(k2,"["+(*sp)[i]); } });
}
