// C23: views borrow. Every global allocation is counted; every returned view must lie in the text.
#include "seq.hpp"
#include "inputs.hpp"
using namespace real;
static size_t news=0;
void* operator new(size_t n){ ++news; void* p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ ++news; void* p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n,std::nothrow_t const&) noexcept { ++news; return std::malloc(n?n:1); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p,size_t) noexcept { std::free(p); }
void operator delete[](void* p,size_t) noexcept { std::free(p); }
static char const* lo; static char const* hi; static const char* outside; // set when a view lies elsewhere
static inline void in(const char* n, bu::string_view s){ if(s.size()&&(s.data()<lo||s.data()>hi||s.size()>size_t(hi-s.data()))) outside=n; }
static const string longkey(300,'k');
// touches everything that promises not to allocate; no allocation on the harness side either
template<class V> static void touch(V& v)
{
    in("encoded_url",v.encoded_url()); in("encoded_origin",v.encoded_origin()); in("scheme",v.scheme()); in("encoded_authority",v.encoded_authority()); in("encoded_userinfo",v.encoded_userinfo()); in("userinfo_part",v.userinfo_part()); in("encoded_user",v.encoded_user()); in("encoded_password",v.encoded_password()); in("encoded_host_and_port",v.encoded_host_and_port()); in("encoded_host",v.encoded_host()); in("port",v.port()); in("port_part",v.port_part()); in("encoded_path",v.encoded_path()); in("encoded_query",v.encoded_query()); in("query_part",v.query_part()); in("encoded_fragment",v.encoded_fragment()); in("fragment_part",v.fragment_part());
    volatile int x=v.has_authority()+v.has_userinfo()+int(v.host_type())+int(v.size()); (void)x;
    if(v.size()&&(v.data()<lo||v.data()+v.size()>hi)) outside="data";
    { auto sg=v.segments(); auto sc=sg; size_t lim=v.size()+2; auto e=sc.end(); for(auto it=sc.begin();it!=e&&lim--;++it){ in("segment",(*it).encoded_string()); in("segment",it->encoded_string()); } lim=v.size()+2; auto b=sc.begin(); for(auto it=e;it!=b&&lim--;){ --it; in("segment",(*it).encoded_string()); } volatile size_t n=sg.size()+sg.empty(); (void)n; }
    { auto pr=v.params(); auto pc=pr; size_t lim=v.size()+2; auto e=pc.end(); for(auto it=pc.begin();it!=e&&lim--;++it){ in("param key",(*it).encoded_key()); in("param value",(*it).encoded_value()); } lim=v.size()+2; auto b=pc.begin(); for(auto it=e;it!=b&&lim--;){ --it; in("param key",it->encoded_key()); } volatile size_t n=pr.size()+pr.empty(); (void)n;
      bu::string_view own=pc.begin()!=pc.end()?(*pc.begin()).encoded_key():bu::string_view();
      for(bu::string_view kv: {bu::string_view(""),bu::string_view("a"),bu::string_view("k"),bu::string_view("zz"),bu::string_view(longkey.data(),16),bu::string_view(longkey.data(),300),own}){ volatile size_t c=pr.count(kv)+pr.contains(kv); (void)c; auto it=pr.find(kv); if(it!=pr.end()) in("found value",(*it).encoded_value()); } }
}
static void borrow(mc::Args const& a)
{
    string s=a.s(0), copy=s, ctx=quote(s); U u; if(!ref::parse(s,u)) return;
    char* buf=static_cast<char*>(std::malloc(s.size()+1)); std::memcpy(buf,s.data(),s.size()); buf[s.size()]='!';
    lo=buf; hi=buf+s.size(); outside=nullptr;
    size_t n0=news;
    bu::url_view v{bu::string_view(buf,s.size())}; size_t n1=news;
    touch(v); size_t n2=news;
    bu::url_view c1(v); bu::url_view c2{bu::string_view("x://other/thing?q#f")}; c2=v; bu::url_view c3(std::move(c1)); bu::url_view c4; c4=std::move(c2); size_t n3=news;
    touch(c3); touch(c4); size_t n4=news;
    MC_NUM("allocations while parsing into a url_view",n1-n0,0); MC_NUM("allocations by observers, iterators and lookups of a url_view",n2-n1,0); MC_NUM("allocations by copying a url_view",n3-n2,0); MC_NUM("allocations by a copied url_view",n4-n3,0);
    MC_TRUE(string(outside?outside:"")+" of a url_view points outside the viewed text",!outside);
    MC_TRUE("the viewed text was modified",std::memcmp(buf,copy.data(),copy.size())==0&&buf[s.size()]=='!');
    MC_TRUE("data() is not the viewed buffer",v.size()==0||(v.data()==buf&&c3.data()==buf&&c4.data()==buf));
    cmp(c3,u,ctx+" copied url_view",w_all,false); cmp(c4,u,ctx+" assigned url_view",w_all,false); cmp(v,u,ctx+" original after being copied",w_all,false);
    { bu::url_view* h=new bu::url_view(v); bu::url_view d(*h); delete h; cmp(d,u,ctx+" copy of a destroyed url_view",w_all,false); bu::url_view& r=d; d=r; cmp(d,u,ctx+" self-assigned url_view",w_all,false); }
    std::free(buf);
    {
        bu::url w(bv(s)); lo=w.data(); hi=w.data()+w.size(); outside=nullptr; size_t m0=news; touch(static_cast<bu::url const&>(w)); in("password_part",w.password_part()); size_t m1=news; touch(w); size_t m2=news;
        MC_NUM("allocations by observers, iterators and lookups of a const url",m1-m0,0); MC_NUM("allocations by observers, iterators and lookups of a url",m2-m1,0); MC_TRUE(string(outside?outside:"")+" of a url points outside its text",!outside);
        MC_EQ("url after being observed",w.encoded_url(),s); MC_TRUE("the text moved while being observed",w.data()==lo);
    }
    mc::visit(s); mc::transitions(9); mc::traces(); mc::outcome(u.has_query?"with query":u.path.empty()?"no path, no query":"path, no query");
}
static void hist(mc::Args const& a)
{
    bu::url v(bv(a[0]));
    for(size_t i=1;i<a.n;++i)
    {
        call c=unpack(a[i]); size_t ret=0;
        if(ref::is_segment_op(c.o)){ size_t n=v.segments().size(); bool ins=c.o==ref::o_insert||c.o==ref::o_insert_enc; if(c.i>n||(c.i==n&&!ins&&c.o!=ref::o_erase_range)||(c.o==ref::o_erase_range&&c.j>n)) break; }
        do_call(v,c,ret);
    }
    string ctx=seq::history(a,a.n), s(tosv(v.encoded_url())); lo=v.data(); hi=v.data()+v.size(); outside=nullptr; size_t m0=news; touch(static_cast<bu::url const&>(v)); in("password_part",v.password_part()); touch(v); size_t m1=news;
    MC_NUM("allocations by observers, iterators and lookups of a url",m1-m0,0); MC_TRUE(string(outside?outside:"")+" of a url points outside its text",!outside); MC_EQ("url after being observed",v.encoded_url(),s);
    mc::visit(s); mc::transitions(2); mc::traces(); mc::outcome("modified url");
}
static int k=mc::add_kind("borrow",borrow), kh=mc::add_kind("history",hist);
void mc::setup()
{
    auto f=[](string const& s){ U u; if(ref::parse(s,u)) mc::run(k,s); };
    inputs::add_all(f); inputs::add_valid(f);
    using seq::step;
    seq::add("after every call", ops::states(0), {step{ops::setters(2),1}}, kh);
    seq::add("every setter with spellings of what is there", ops::rich_states(), {step{ops::setters(2),1,true}}, kh);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{ops::setters(1),0}}, kh);
    seq::add("after every pair of calls", ops::few_states(), {step{ops::setters(0),0},step{ops::setters(0),0}}, kh);
}
