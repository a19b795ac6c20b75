// C13: null-terminated, within storage, no reallocation when the result fits, blocks balanced.
// Own allocator with red zones and exact sizes, under AddressSanitizer/UBSan.
#include "seq.hpp"
using namespace real;
static void raw(turl const& v, string const& ctx)
{
    string s(tosv(v.encoded_url()));
    MC_NUM("size()",v.size(),s.size());
    MC_TRUE("data() is null",v.data()!=nullptr);
    MC_TRUE("data() differs from encoded_url()",std::memcmp(v.data(),s.data(),s.size())==0);
    MC_TRUE("data()[size()] is not 0",v.data()[v.size()]==0);
    MC_TRUE("capacity()<size()",v.capacity()>=v.size());
    MC_TRUE("the string is not in a block of the URL's allocator",v.size()==0||trk().owns(v.data(),v.size()+1));
    if(v.capacity()>0&&v.size()>0) MC_TRUE("capacity() exceeds the allocated block",trk().owns(v.data(),v.capacity()+1));
    trk().check();
}
static void hist(mc::Args const& a)
{
    trk().reset();
    {
        turl v(bv(a[0]),talloc<char>(1)); raw(v,seq::history(a,0));
        for(size_t i=1;i<a.n;++i)
        {
            call c=unpack(a[i]); size_t ret=0; string ctx=seq::history(a,i);
            if(ref::is_segment_op(c.o)){ size_t n=v.segments().size(); bool ins=c.o==ref::o_insert||c.o==ref::o_insert_enc; if(c.i>n||(c.i==n&&!ins&&c.o!=ref::o_erase_range)||(c.o==ref::o_erase_range&&c.j>n)) break; }
            size_t cap=v.capacity(), al=trk().allocs; char const* p=v.data(); bool had=cap>0;
            res r=do_call(v,c,ret); mc::transitions(); (void)r;
            raw(v,ctx);
            if(had&&v.size()<=cap&&r==r_ok)
            {
                MC_TRUE("the result fits the capacity but the string moved",v.data()==p);
                if(c.o!=ref::o_assign) MC_TRUE("the result fits the capacity but memory was allocated",trk().allocs==al);
                mc::outcome("fits: no allocation");
            }
            else mc::outcome(r==r_ok?"grew":"refused");
        }
        mc::visit(tosv(v.encoded_url()));
    }
    trk().check();
    if(!trk().live.empty()) mc::fail("a block is never returned ["+seq::history(a,a.n)+"]");
    mc::traces();
}
static int k=mc::add_kind("storage",hist);
// copies, moves, assignments: blocks still balanced
static void copies(mc::Args const& a)
{
    trk().reset(); string ctx=quote(a[0])+" / "+quote(a[1]);
    {
        turl x(bv(a[0]),talloc<char>(1)); turl y(bv(a[1]),talloc<char>(1));
        turl z(x); raw(z,ctx+" copy"); z=y; raw(z,ctx+" assign"); z=z; raw(z,ctx+" self-assign"); turl w(std::move(x)); raw(w,ctx+" move"); 
        turl d; raw(d,ctx+" default"); d=w; raw(d,ctx+" assign to default"); turl e{talloc<char>(2)}; e=y; raw(e,ctx); turl g(std::move(e)); raw(g,ctx);
        w.set_encoded_fragment(bv("something-long-enough-to-reallocate-the-string")); raw(w,ctx); y=w; raw(y,ctx);
        mc::transitions(8);
    }
    trk().check(); if(!trk().live.empty()) mc::fail("a block is never returned ["+ctx+"]");
    mc::visit(a.s(0)+"\n"+a.s(1)); mc::traces(); mc::outcome("copied and moved");
}
static int k2=mc::add_kind("copies",copies);
// allocators with a small max_size(): never asked for more, a result that does not fit is refused
static size_t limit_=0; static string over_;
template<class T> struct lalloc
{
    typedef T value_type; bool strict; lalloc(bool s=false):strict(s){} template<class V> lalloc(lalloc<V> const& o):strict(o.strict){}
    size_t max_size() const noexcept { return limit_; }
    T* allocate(size_t n){ if(n>limit_){ if(strict) throw std::bad_alloc(); } return reinterpret_cast<T*>(trk().get(n*sizeof(T),0)); }
    void deallocate(T* p,size_t n) noexcept { trk().put(reinterpret_cast<char*>(p),n*sizeof(T),0); }
    template<class V> bool operator==(lalloc<V> const&) const { return true; } template<class V> bool operator!=(lalloc<V> const&) const { return false; }
};
static void limited(mc::Args const& a) // limit, strict, initial url, calls
{
    typedef bu::basic_url<lalloc<char>> lurl;
    trk().reset(); limit_=size_t(a.num(0)); string ctx="max_size "+a.s(0)+" "+quote(a[2]); for(size_t i=3;i<a.n;++i) ctx+="."+describe(unpack(a[i]));
    {
        lurl v{lalloc<char>(a.s(1)=="1")}; bu::url h;
        for(size_t i=2;i<a.n;++i)
        {
            call c= i==2? call(ref::o_url,a.s(2)) : unpack(a[i]); size_t ret=0; string was(tosv(v.encoded_url())); U before,after;
            if(!ref::parse(was,before)) return;
            if(ref::is_segment_op(c.o)){ size_t n=v.segments().size(); bool ins=c.o==ref::o_insert||c.o==ref::o_insert_enc; if(c.i>n||(c.i==n&&!ins&&c.o!=ref::o_erase_range)||(c.o==ref::o_erase_range&&c.j>n)) break; }
            h.set_encoded_url(bv(was)); res e=do_call(h,c,ret), r=do_call(v,c,ret); mc::transitions();
            trk().check(); string now(tosv(v.encoded_url()));
            MC_TRUE("data()[size()] is not 0",v.data()[v.size()]==0); MC_TRUE("capacity() is larger than the allocator allows",v.size()==0||v.capacity()<limit_); MC_TRUE("the string is not in a block of the URL's allocator",v.size()==0||trk().owns(v.data(),v.capacity()+1));
            if(r==r_ok){ MC_TRUE("accepted, a heap URL refuses it",e==r_ok); MC_EQ("URL",now,string(tosv(h.encoded_url()))); mc::outcome("fits the allocator"); }
            else { MC_EQ("URL after a refusal",now,was); cmp_both(v,before,ctx,w_all,false); if(e!=r_ok) MC_TRUE(string("the call ")+res_name(r),r==r_invalid||r==r_other||r==r_noalloc); mc::outcome(e==r_ok?"too large for the allocator":"refused"); }
        }
    }
    trk().check(); if(!trk().live.empty()) mc::fail("a block is never returned ["+ctx+"]");
    mc::visit(ctx); mc::traces();
}
static int k3=mc::add_kind("limited",limited);
void mc::setup()
{
    using seq::step;
    ops::add_long("every call on states with a long component",thorough,tier(0,1),[](string const& st, ref::call const& c){ seq::run_history(k,st,{pack(c)}); });
    ops::calls s0=ops::setters(0), s1=ops::setters(1), s2=ops::setters(2);
    seq::add("every state x every call", ops::states(tier(0,1)), {step{s2,1}}, k);
    seq::add("every setter with spellings of what is there", ops::rich_states(), {step{s2,1,true}}, k);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{s2,1}}, k);
    seq::add_periodic("every pair of calls repeated eleven times", {"","x://u:p@h:1/a/b?k=v#f","a/b","//[::1]/?#","x:/.//y"}, ops::setters(0), 0, 2, k);
    seq::add("every pair of calls", ops::few_states(), {step{thorough?s1:s0,0},step{s1,1}}, k);
    seq::add("every triple of calls", thorough?ops::few_states():strings{"","x://u:p@h:1/a/b/c?k=v&l=m#f","a/b"}, {step{s0,0},step{s0,0},step{s0,0}}, k);
    // sizes: grow, shrink and grow again through every pair of lengths
    mc::add_job("growth patterns",65,[](size_t n){ using namespace ref; for(size_t m=0;m<=64;++m) for(int o: {o_enc_fragment,o_enc_query,o_enc_host,o_enc_user,o_path,o_url}) { auto arg=[&](size_t x){ string s(x,'a'); return o==o_path&&x?"/"+s:s; }; seq::run_history(k,"",{pack(call(o,arg(n))),pack(call(o,arg(m))),pack(call(o,arg(n+1)))}); if(o!=o_url&&!thorough&&m%4) continue; seq::run_history(k,"x://h/p",{pack(call(o,arg(n))),pack(call(o,arg(m))),pack(call(o_url,""))}); } });
    mc::add_job("big strings",8,[](size_t i){ using namespace ref; static const size_t L[]={200,255,256,1023,4096,10000,65535,100000}; string a(L[i],'a'); for(int o: {o_enc_fragment,o_fragment,o_enc_query,o_host,o_user,o_scheme}) for(auto s: {"","x://u:p@h:1/a/b?q#f"}) seq::run_history(k,s,{pack(call(o,a)),pack(call(o_enc_query,"x")),pack(call(o,"b")),pack(call(o,a))}); });
    strings st=ops::few_states(); auto sp=std::make_shared<strings>(st);
    mc::add_job("copies",st.size(),[sp](size_t i){ for(auto& y: *sp) mc::run(k2,(*sp)[i],y); });
    mc::add_job("allocators with every max_size",tier(90,140),[](size_t n)
    {
        string m=std::to_string(n+1);
        for(const char* strict: {"0","1"}) for(auto& s: ops::few_states()) { for(auto& c: ops::setters(tier(0,1))) for(auto& d: {call(ref::o_enc_fragment,"frag"),call(ref::o_url,"x://h/p"),call(ref::o_host,"a b")}) mc::run(k3,m,string(strict),s,pack(c),pack(d)); U u; ref::parse(s,u); for(auto& c: ops::edits(ref::segments(u.path).size(),1)) mc::run(k3,m,string(strict),s,pack(c)); }
        for(size_t x=0;x<=n+3;++x) for(size_t y=0;y<=n+3;++y) mc::run(k3,m,string("0"),"#"+string(x,'a'),pack(call(ref::o_enc_fragment,string(y,'b'))));
    });
}
