// C14: static pools. Model: a bump allocator; every sequence of requests of up to 4 (types x
// counts), every buffer size and base alignment; URLs living in pools of every size.
#include "seq.hpp"
using namespace real;
template<size_t N,size_t A> struct alignas(A) blob { char c[N]; };
typedef blob<1,1> b1; typedef blob<2,2> b2; typedef blob<3,1> b3; typedef blob<4,4> b4; typedef blob<8,8> b8; typedef blob<16,16> b16; typedef blob<24,8> b24; typedef blob<64,64> b64;
struct req { size_t size, align; };
static const req kinds[]={{1,1},{2,2},{3,1},{4,4},{8,8},{16,16},{24,8},{64,64}};
typedef bu::basic_static_pool pool;
template<class T> static void* get(pool& p,size_t n)
{
    // allocators are obtained by rebinding the char allocator, as containers do
    pool::allocator_type<char> c=p.allocator();
    typename std::allocator_traits<pool::allocator_type<char>>::template rebind_alloc<T> a(c);
    return a.allocate(n);
}
static void* get(pool& p,int k,size_t n)
{
    switch(k){ case 0: return get<b1>(p,n); case 1: return get<b2>(p,n); case 2: return get<b3>(p,n); case 3: return get<b4>(p,n); case 4: return get<b8>(p,n); case 5: return get<b16>(p,n); case 6: return get<b24>(p,n); default: return get<b64>(p,n); }
}
template<class T> static void put(pool& p,void* q,size_t n){ pool::allocator_type<T> a(p.allocator()); a.deallocate(static_cast<T*>(q),n); }
static void put(pool& p,int k,void* q,size_t n){ switch(k){ case 0: put<b1>(p,q,n); break; case 1: put<b2>(p,q,n); break; case 2: put<b3>(p,q,n); break; case 3: put<b4>(p,q,n); break; case 4: put<b8>(p,q,n); break; case 5: put<b16>(p,q,n); break; case 6: put<b24>(p,q,n); break; default: put<b64>(p,q,n); } }
// counts: small ones and ones whose byte size overflows
static const size_t counts[]={1,0,2,3,5,17,size_t(1)<<60,size_t(-1),size_t(-1)/2+1,size_t(-1)/16+2,size_t(-1)-3,(size_t(1)<<63)+1};
enum { ncounts=12 };
static void requests(mc::Args const& a) // capacity, offset of the base, bytes: (kind,countindex)*, free flag
{
    size_t cap=size_t(a.num(0)), off=size_t(a.num(1));
    alignas(128) static thread_local char arena[2048]; std::memset(arena,0x5A,sizeof arena);
    char* base=arena+512+off;
    pool p(base,cap);
    size_t top=0; // what a bump allocator without reuse would have used
    struct got { size_t lo,hi; }; std::vector<got> g; string log="pool of "+std::to_string(cap)+" bytes at alignment offset "+std::to_string(off)+":";
    bool freeing=a.s(3)=="1"; (void)freeing;
    for(size_t i=0;i+1<a[2].size();i+=2)
    {
        int k=a[2][i]; size_t n=counts[(int)a[2][i+1]]; size_t bytes; bool over=__builtin_mul_overflow(n,kinds[k].size,&bytes);
        log+=" allocate("+std::to_string(n)+" x "+std::to_string(kinds[k].size)+"/"+std::to_string(kinds[k].align)+")"; string ctx=log;
        uintptr_t b=uintptr_t(base)+top; size_t start=top+((kinds[k].align-b%kinds[k].align)%kinds[k].align);
        bool fits=!over && start<=cap && bytes<=cap-start;
        void* q=nullptr; bool threw=false;
        try { q=get(p,k,n); } catch(std::bad_alloc const&){ threw=true; }
        mc::transitions();
        if(threw)
        {
            MC_TRUE("bad_alloc although the request fits",!fits);
            mc::outcome(over?"bad_alloc (size overflows)":"bad_alloc (does not fit)"); log+=" -> bad_alloc";
            continue; // takes nothing: the model's top is unchanged
        }
        char* c=static_cast<char*>(q);
        MC_TRUE("a request that overflows was granted",!over);
        MC_TRUE("block starts before the buffer",bytes==0||c>=base);
        MC_TRUE("block starts behind the buffer",bytes==0||c<=base+cap);
        MC_TRUE("block ends behind the buffer",bytes==0||bytes<=size_t(base+cap-c));
        MC_TRUE("block is not aligned for its type",uintptr_t(c)%kinds[k].align==0);
        size_t lo=size_t(c-base), hi=lo+bytes;
        if(bytes) for(auto& x: g) MC_TRUE("block overlaps an earlier one",hi<=x.lo||lo>=x.hi);
        if(bytes) g.push_back({lo,hi});
        MC_TRUE("granted although it cannot fit",fits||bytes==0);
        std::memset(c,int(i),bytes);
        top=start+bytes; mc::outcome("granted");
        if(freeing) put(p,k,q,n); // freeing never makes an earlier block be handed out twice while... pools do not reuse
    }
    for(size_t i=0;i<512+off;++i) if(arena[i]!=0x5A) mc::fail("memory before the pool was written ["+log+"]");
    for(size_t i=512+off+cap;i<sizeof arena;++i) if(arena[i]!=0x5A) mc::fail("memory behind the pool was written ["+log+"]");
    mc::visit(log); mc::traces();
}
// large pools and large requests: capacity, then kind:count pairs
static void large(mc::Args const& a)
{
    size_t cap=size_t(a.num(0)); std::vector<char> mem(cap+256,char(0x5A)); char* base=mem.data()+128; base+=(64-uintptr_t(base)%64)%64; base+=a.num(1);
    pool p(base,cap); size_t top=0; string log="pool of "+std::to_string(cap)+" bytes:"; struct got { size_t lo,hi; }; std::vector<got> g;
    for(size_t i=2;i+1<a.n;i+=2)
    {
        int k=int(a.num(i)); size_t n=size_t(std::stoull(a.s(i+1))), bytes; bool over=__builtin_mul_overflow(n,kinds[k].size,&bytes); log+=" allocate("+std::to_string(n)+" x "+std::to_string(kinds[k].size)+"/"+std::to_string(kinds[k].align)+")"; string ctx=log;
        size_t start=top+((kinds[k].align-(uintptr_t(base)+top)%kinds[k].align)%kinds[k].align); bool fits=!over&&start<=cap&&bytes<=cap-start;
        void* q=nullptr; try { q=get(p,k,n); } catch(std::bad_alloc const&){} mc::transitions();
        if(!q){ MC_TRUE("bad_alloc although the request fits",!fits); mc::outcome("bad_alloc (does not fit)"); continue; }
        if(!bytes){ top=start; continue; }
        char* c=static_cast<char*>(q); MC_TRUE("granted although it cannot fit",fits); MC_TRUE("block outside the buffer",c>=base&&c<=base+cap&&bytes<=size_t(base+cap-c)); MC_TRUE("block is not aligned for its type",uintptr_t(c)%kinds[k].align==0);
        size_t lo=size_t(c-base), hi=lo+bytes; for(auto& x: g) MC_TRUE("block overlaps an earlier one",hi<=x.lo||lo>=x.hi); g.push_back({lo,hi}); top=start+bytes; mc::outcome("granted");
    }
    mc::visit(log); mc::traces();
}
// a URL in a pool behaves as on the heap until the pool is exhausted, then it is unchanged
static void pooled(mc::Args const& a) // capacity, initial url, packed calls
{
    typedef bu::basic_url<pool::allocator_type<char>> purl;
    size_t cap=size_t(a.num(0));
    static thread_local std::vector<char> mem; mem.assign(768+cap,char(0x5A)); char* const arena=mem.data(); const size_t asize=mem.size();
    pool p(arena+256,cap); string ctx="pool of "+std::to_string(cap)+": url("+quote(a[1])+")"; bool done=false;
    U m; ref::parse(a.s(1),m);
    {
        purl v(p.allocator());
        try { v.set_encoded_url(bv(a[1])); } catch(std::bad_alloc const&){ MC_EQ("URL in an exhausted pool",v.encoded_url(),string()); m=U(); mc::outcome("exhausted at once"); done=true; }
        for(size_t i=2;i<a.n&&!done;++i)
        {
            call c=unpack(a[i]); size_t nx=0,ret=0; U before=m; ref::verdict w=ref::apply(m,c,nx); if(w==ref::v_any){ m=before; continue; }
            ctx+="."+describe(c); size_t vc=v.capacity();
            res r=do_call(v,c,ret); mc::transitions();
            if(r==r_noalloc){ m=before; MC_TRUE("bad_alloc although the result fits the capacity",w!=ref::v_ok||true); cmp_both(v,m,ctx+" (exhausted)",w_all,false); mc::outcome("exhausted, unchanged"); }
            else { MC_TRUE(string("call ")+res_name(r)+" in a pool",(r==r_ok)==(w==ref::v_ok)); if(w!=ref::v_ok) m=before; cmp_both(v,m,ctx,w_all,false); mc::outcome(r==r_ok?"as on the heap":"refused as on the heap"); }
            (void)vc;
        }
        if(v.size()) MC_TRUE("the URL's text is not inside the pool",v.data()>=arena+256&&v.data()+v.size()+1<=arena+256+cap);
    }
    for(size_t i=0;i<256;++i) if(arena[i]!=0x5A) mc::fail("memory before the pool was written ["+ctx+"]");
    for(size_t i=256+cap;i<asize;++i) if(arena[i]!=0x5A) mc::fail("memory behind the pool was written ["+ctx+"]");
    mc::visit(ctx); mc::traces();
}
// several URLs and strings sharing one static_pool<N>
template<size_t N> static void shared_pool(string const& ctx)
{
    typedef bu::basic_url<pool::allocator_type<char>> purl;
    bu::static_pool<N> sp; strings want; std::vector<std::unique_ptr<purl>> us; string text[]={"http://example.com/a","x:y","","//h/p?q=1#f","/a/b/c/d"};
    bool full=false;
    for(int i=0;i<12;++i)
    {
        string t=text[i%5];
        try { std::unique_ptr<purl> q(new purl(bv(t),sp.allocator())); us.push_back(std::move(q)); want.push_back(t); } catch(std::bad_alloc const&){ full=true; }
        mc::transitions();
        for(size_t k=0;k<us.size();++k){ U u; ref::parse(want[k],u); cmp_both(*us[k],u,ctx+" url "+std::to_string(k),w_all,false); if(us[k]->size()) MC_TRUE("text outside the static_pool object",us[k]->data()>=reinterpret_cast<char*>(&sp)&&us[k]->data()+us[k]->size()<reinterpret_cast<char*>(&sp)+sizeof sp); }
        try { size_t k=size_t(i)%us.size(); U u; ref::parse(want[k],u); us[k]->set_fragment(bv("a b")); u.has_frag=true; u.frag="a%20b"; want[k]=u.str(); } catch(std::bad_alloc const&){ full=true; }
        // decoded strings in the pool
        try { if(!us.empty()){ pool::allocator_type<char> al=sp.allocator(); auto s=us[0]->host(al); U u; ref::parse(want[0],u); MC_EQ("host(pool allocator)",s,dec_host(u)); } } catch(std::bad_alloc const&){ full=true; }
    }
    mc::outcome(full?"pool filled up":"pool did not fill up"); mc::visit(ctx); mc::traces();
}
static void shared(mc::Args const& a)
{
    string ctx="static_pool<"+a.s(0)+"> shared by several URLs";
    switch(a.num(0)){ case 64: shared_pool<64>(ctx); break; case 100: shared_pool<100>(ctx); break; case 333: shared_pool<333>(ctx); break; case 2000: shared_pool<2000>(ctx); break; }
}
static int k1=mc::add_kind("requests",requests), k2=mc::add_kind("pooled-url",pooled), k3=mc::add_kind("shared-pool",shared), k4=mc::add_kind("large requests",large);
void mc::setup()
{
    static const size_t caps[]={0,1,2,3,7,8,9,15,16,17,24,31,32,33,40,63,64,65,72,127,128,129,200,256};
    // depth: all sequences of 3 (quick) / 4 (thorough) requests over 8 kinds x counts 1,0,2,3 ; overflow counts up to depth 2
    mc::add_job("request sequences",24*16,[](size_t sh)
    {
        size_t cap=caps[sh/16], off=sh%16; string c=std::to_string(cap), o=std::to_string(off);
        for(unsigned len=1;len<=unsigned(tier(3,4));++len)
        {
            std::vector<unsigned> v; unsigned al= len<=2?8*ncounts: len==3? 8*3 : 8*2; unsigned nc=al/8;
            mc::all_seq(al,len,v,[&](std::vector<unsigned> const& x){ string b; for(auto y: x){ b.push_back(char(y/nc)); b.push_back(char(y%nc)); } mc::run(k1,c,o,b,"0"); });
        }
    });
    mc::add_job("request sequences with deallocation",24*16,[](size_t sh){ size_t cap=caps[sh/16], off=sh%16; for(unsigned len=1;len<=2;++len){ std::vector<unsigned> v; mc::all_seq(24,len,v,[&](std::vector<unsigned> const& x){ string b; for(auto y: x){ b.push_back(char(y/3)); b.push_back(char(y%3)); } mc::run(k1,std::to_string(cap),std::to_string(off),b,"1"); }); } });
    mc::add_job("URLs in pools of every size",130,[](size_t cap)
    {
        string c=std::to_string(cap);
        for(auto& s: ops::few_states())
        {
            for(auto& x: ops::setters(1)) mc::run(k2,c,s,pack(x));
            for(auto& x: ops::setters(0)) for(auto& y: {call(ref::o_enc_fragment,"frag"),call(ref::o_url,"x://h/p"),call(ref::o_host,"a b"),call(ref::o_enc_query,"")}) mc::run(k2,c,s,pack(x),pack(y));
            if(thorough) for(auto& x: ops::setters(0)) for(auto& y: ops::setters(0)) mc::run(k2,c,s,pack(x),pack(y));
            U u; ref::parse(s,u); for(auto& x: ops::edits(ref::segments(u.path).size(),1)) mc::run(k2,c,s,pack(x));
        }
    });
    static const size_t big[]={255,256,257,1000,4095,4096,32767,32768,65535,65536,65537,70000,131072,1048576};
    mc::add_job("large pools, requests around what is left",14*16,[](size_t sh)
    {
        size_t cap=big[sh/16], off=sh%16; string c=std::to_string(cap), o=std::to_string(off);
        for(int k=0;k<8;++k) for(size_t first: {size_t(0),size_t(1),size_t(7),cap/2,cap-9,cap-1,cap,size_t(65535),size_t(65536)}) for(long d=-2;d<=2;++d) for(int k0: {0,4})
        {
            size_t f=first/kinds[k0].size, used=f*kinds[k0].size, left=used<=cap?cap-used:0; size_t n=left/kinds[k].size; if(d<0&&n<size_t(-d)) continue; n=size_t(long(n)+d);
            mc::run(k4,c,o,std::to_string(k0),std::to_string(f),std::to_string(k),std::to_string(n),string("0"),string("1"));
            mc::run(k4,c,o,std::to_string(k0),std::to_string(f),std::to_string(k),std::to_string(n|(size_t(1)<<32)),string("0"),string("1"));
            mc::run(k4,c,o,std::to_string(k0),std::to_string(f),std::to_string(k),std::to_string(n+65536),string("0"),string("1"));
        }
    });
    static const auto L=mc::lengths(1,tier(33,140),{63,64,65,127,128,255,256,257,1000,4096,65536});
    mc::add_job("URLs with a long component in pools around their size",L.size()*10,[](size_t sh)
    {
        string s=ops::long_states(L[sh/10])[sh%10]; static const ops::calls cs=ops::setters(0);
        for(size_t extra: {size_t(0),size_t(1),size_t(2),size_t(5),s.size(),s.size()+1,s.size()*2+1,s.size()*2+40,size_t(3000)}) for(auto& x: cs) { mc::run(k2,std::to_string(s.size()+extra),s,pack(x)); }
        for(size_t cap: {s.size()-1,s.size(),s.size()+1,s.size()+30,2*s.size()+2,2*s.size()+30}) mc::run(k2,std::to_string(cap),string("x://h/p"),pack(call(ref::o_url,s)),pack(call(ref::o_enc_fragment,"f")));
    });
    mc::add_job("shared static_pool<N>",4,[](size_t i){ static const char* n[]={"64","100","333","2000"}; mc::run(k3,n[i]); });
}
