// Binding between the reference model (ref.hpp) and the library in /repo: performs a
// model operation on a real URL, and compares real observers with the model's.
// Uses the public interface only.
#ifndef MC_REAL_HPP
#define MC_REAL_HPP
#include "ref.hpp"
#include "rt.hpp"
#include <boost/url.hpp>
#include <boost/url/static_pool.hpp>
#include <boost/url/scheme.hpp>
#include <memory>
#include <new>
#include <exception>
#include <stdexcept>
#include <cstdlib>

namespace real {
namespace bu = boost::urls;
using ref::U; using ref::string; using ref::strings; using ref::call;
using mc::quote;
typedef mc::sv sv;

inline bu::string_view bv(sv s){ return bu::string_view(s.data(),s.size()); }
template<class V> inline sv tosv(V const& v){ return sv(v.data(),v.size()); }
template<class S> inline bool eq(S const& a, string const& b)
{
    return a.size()==b.size() && (b.empty()||std::memcmp(a.data(),b.data(),b.size())==0);
}
[[noreturn]] inline void bad(const char* what, string const& ctx, sv got, string const& want)
{
    mc::fail(string(what)+" is "+quote(got)+", expected "+quote(want)+" ["+ctx+"]");
}
#define MC_EQ(name,got,want) do { auto&& g_=(got); string const& w_=(want); if(!::real::eq(g_,w_)) ::real::bad(name,ctx,::real::tosv(g_),w_); } while(0)
#define MC_NUM(name,got,want) do { long long g_=(long long)(got), w_=(long long)(want); if(g_!=w_) ::mc::fail(string(name)+" is "+std::to_string(g_)+", expected "+std::to_string(w_)+" ["+ctx+"]"); } while(0)
#define MC_TRUE(name,cond) do { if(!(cond)) ::mc::fail(string(name)+" ["+ctx+"]"); } while(0)

//------------------------------------------------------------ observers
// what to compare
enum { w_str=1, w_dec=2, w_type=4, w_seg=8, w_par=16, w_raw=32, w_all=63 };

template<class V> inline void cmp_str(V const& v, U const& u, string const& ctx)
{
    MC_EQ("encoded_url()",v.encoded_url(),u.str());
    MC_EQ("encoded_origin()",v.encoded_origin(),u.origin());
    MC_EQ("scheme()",v.scheme(),u.scheme);
    MC_NUM("has_authority()",v.has_authority(),u.auth);
    MC_EQ("encoded_authority()",v.encoded_authority(),u.authority());
    MC_NUM("has_userinfo()",v.has_userinfo(),u.at);
    MC_EQ("encoded_userinfo()",v.encoded_userinfo(),u.userinfo());
    MC_EQ("userinfo_part()",v.userinfo_part(),u.at?u.userinfo()+"@":string());
    MC_EQ("encoded_user()",v.encoded_user(),u.user);
    MC_EQ("encoded_password()",v.encoded_password(),u.pass);
    MC_EQ("encoded_host()",v.encoded_host(),u.host);
    MC_EQ("encoded_host_and_port()",v.encoded_host_and_port(),u.has_port?u.host+":"+u.port:u.host);
    MC_EQ("port()",v.port(),u.port);
    MC_EQ("port_part()",v.port_part(),u.has_port?":"+u.port:string());
    MC_EQ("encoded_path()",v.encoded_path(),u.path);
    MC_EQ("encoded_query()",v.encoded_query(),u.query);
    MC_EQ("query_part()",v.query_part(),u.has_query?"?"+u.query:string());
    MC_EQ("encoded_fragment()",v.encoded_fragment(),u.frag);
    MC_EQ("fragment_part()",v.fragment_part(),u.has_frag?"#"+u.frag:string());
}
inline void cmp_str_extra(bu::url_view const&, U const&, string const&) {}
inline void cmp_str_extra(bu::url_base const& v, U const& u, string const& ctx)
{
    MC_EQ("password_part()",v.password_part(),u.colon?":"+u.pass:string());
}
inline string dec_host(U const& u)
{
    return ref::host_class(u.host)==ref::h_name ? ref::decode(u.host) : u.host;
}
template<class V> inline void cmp_dec(V const& v, U const& u, string const& ctx)
{
    MC_EQ("user()",v.user(),ref::decode(u.user));
    MC_EQ("password()",v.password(),ref::decode(u.pass));
    MC_EQ("host()",v.host(),dec_host(u));
    MC_EQ("query()",v.query(),ref::decode(u.query));
    MC_EQ("fragment()",v.fragment(),ref::decode(u.frag));
}
template<class V> inline void cmp_type(V const& v, U const& u, string const& ctx)
{
    MC_NUM("host_type()",int(v.host_type()),ref::host_class(u.host));
}
// size()/data()/null-termination
inline void cmp_raw(bu::url_view const& v, U const& u, string const& ctx)
{
    MC_NUM("size()",v.size(),u.str().size());
    MC_TRUE("data() is not the viewed text",v.size()==0||std::memcmp(v.data(),u.str().data(),v.size())==0);
}
inline void cmp_raw(bu::url_base const& v, U const& u, string const& ctx)
{
    string s=u.str();
    MC_NUM("size()",v.size(),s.size());
    MC_TRUE("capacity()<size()",v.capacity()>=v.size());
    MC_TRUE("data() is null",v.data()!=nullptr);
    MC_TRUE("data() differs from the URL",std::memcmp(v.data(),s.data(),s.size())==0);
    MC_TRUE("data()[size()] is not 0",v.data()[v.size()]==0);
}

template<class It> inline void cmp_seg1(It const& it, string const& e, bool dec, string const& ctx)
{
    MC_EQ("segment encoded_string()",(*it).encoded_string(),e);
    if(dec)
    {
        MC_EQ("segment -> encoded_string()",it->encoded_string(),e);
        MC_EQ("segment string()",(*it).string(),ref::decode(e));
        MC_EQ("segment -> string()",it->string(),ref::decode(e));
    }
}
// all turning points on short lists, the ends and the middle on long ones
inline bool zigzag(size_t i,size_t k,size_t n)
{
    if(n<=12) return true;
    return (i<=2||i>=n-1||i==n/2)&&(k<=2||k>=i-1);
}
// iterators reached by ++ from begin() and by -- from end() are equal exactly at equal positions
template<class L> inline void cmp_positions(L const& l, size_t n, string const& ctx)
{
    if(n>6) return;
    typedef typename std::decay<decltype(l.begin())>::type It;
    It f[8], b[8]; f[0]=l.begin(); for(size_t i=1;i<=n;++i){ f[i]=f[i-1]; ++f[i]; }
    b[n]=l.end(); for(size_t i=n;i-->0;){ b[i]=b[i+1]; --b[i]; }
    for(size_t i=0;i<=n;++i) for(size_t j=0;j<=n;++j)
    {
        MC_TRUE("iterator == disagrees with the positions",(f[i]==f[j])==(i==j)&&(f[i]==b[j])==(i==j)&&(b[i]==b[j])==(i==j));
        MC_TRUE("iterator != disagrees with the positions",(f[i]!=b[j])==(i!=j));
    }
}
inline bool zigzag_row(size_t i,size_t n){ return n<=12||i<=2||i>=n-1||i==n/2; }
// deep: also every ++/-- zigzag
template<class V> inline void cmp_seg(V& v, U const& u, string const& ctx, bool deep=true)
{
    strings l=ref::segments(u.path);
    auto sg=v.segments();
    MC_NUM("segments().size()",sg.size(),l.size());
    MC_NUM("segments().empty()",sg.empty(),l.empty());
    auto b=sg.begin(), e=sg.end();
    auto it=b;
    for(size_t i=0;i<l.size();++i)
    {
        MC_TRUE("segments() ends too early",it!=e && !(it==e));
        cmp_seg1(it,l[i],deep,ctx);
        if(i%2) ++it; else { auto old=it++; MC_TRUE("iterator postfix ++",(old==it)==false); if(deep) cmp_seg1(old,l[i],false,ctx); }
    }
    MC_TRUE("segments() does not end",it==e && !(it!=e));
    it=e;
    for(size_t i=l.size();i-->0;)
    {
        if(i%2) --it; else { auto old=it--; MC_TRUE("iterator postfix --",(old==it)==false); if(deep){ if(i+1==l.size()) MC_TRUE("postfix -- does not return the old position",old==e); else cmp_seg1(old,l[i+1],false,ctx); } }
        cmp_seg1(it,l[i],false,ctx);
    }
    MC_TRUE("segments() backwards does not reach begin()",it==b);
    if(deep && l.size()>1)
    {
        for(size_t i=1;i<=l.size();++i) // forward i, back k, forward again to i
            for(size_t k=1;zigzag_row(i,l.size())&&k<=i;++k)
            {
                if(!zigzag(i,k,l.size())){ if(k>2&&i>1000&&k<i-1) k=i>2?i-2:k; continue; }
                auto z=sg.begin();
                for(size_t n=0;n<i;++n) ++z;
                for(size_t n=0;n<k;++n) --z;
                cmp_seg1(z,l[i-k],false,ctx);
                for(size_t n=0;n<k;++n) ++z;
                if(i==l.size()) MC_TRUE("zigzag does not return to end()",z==e);
                else { cmp_seg1(z,l[i],false,ctx); MC_TRUE("zigzag reached end()",z!=e); }
            }
        size_t n=0; for(auto x: sg) { (void)x; ++n; if(n>l.size()) break; }
        MC_NUM("range-for over segments()",n,l.size());
        cmp_positions(sg,l.size(),ctx);
    }
}
template<class It> inline void cmp_par1(It const& it, std::pair<string,string> const& e, bool dec, string const& ctx)
{
    MC_EQ("param encoded_key()",(*it).encoded_key(),e.first);
    MC_EQ("param encoded_value()",(*it).encoded_value(),e.second);
    if(dec)
    {
        MC_EQ("param -> encoded_key()",it->encoded_key(),e.first);
        MC_EQ("param key()",(*it).key(),ref::decode(e.first));
        MC_EQ("param value()",(*it).value(),ref::decode(e.second));
        MC_EQ("param -> key()",it->key(),ref::decode(e.first));
        MC_EQ("param -> value()",it->value(),ref::decode(e.second));
        std::pair<std::string const,std::string> pr=*it;
        MC_EQ("param as a pair, first",pr.first,ref::decode(e.first));
        MC_EQ("param as a pair, second",pr.second,ref::decode(e.second));
    }
}
template<class V> inline void cmp_par(V& v, U const& u, string const& ctx, bool deep=true)
{
    ref::pairs l=ref::params(u);
    auto pr=v.params();
    MC_NUM("params().size()",pr.size(),l.size());
    MC_NUM("params().empty()",pr.empty(),l.empty());
    auto b=pr.begin(), e=pr.end();
    auto it=b;
    for(size_t i=0;i<l.size();++i)
    {
        MC_TRUE("params() ends too early",it!=e && !(it==e));
        cmp_par1(it,l[i],deep,ctx);
        if(i%2) ++it; else { auto old=it++; MC_TRUE("iterator postfix ++",(old==it)==false); if(deep) cmp_par1(old,l[i],false,ctx); }
    }
    MC_TRUE("params() does not end",it==e && !(it!=e));
    it=e;
    for(size_t i=l.size();i-->0;)
    {
        if(i%2) --it; else { auto old=it--; MC_TRUE("iterator postfix --",(old==it)==false); if(deep){ if(i+1==l.size()) MC_TRUE("postfix -- does not return the old position",old==e); else cmp_par1(old,l[i+1],false,ctx); } }
        cmp_par1(it,l[i],false,ctx);
    }
    MC_TRUE("params() backwards does not reach begin()",it==b);
    if(deep && l.size()>1)
    {
        for(size_t i=1;i<=l.size();++i)
            for(size_t k=1;zigzag_row(i,l.size())&&k<=i;++k)
            {
                if(!zigzag(i,k,l.size())){ if(k>2&&i>1000&&k<i-1) k=i>2?i-2:k; continue; }
                auto z=pr.begin();
                for(size_t n=0;n<i;++n) ++z;
                for(size_t n=0;n<k;++n) --z;
                cmp_par1(z,l[i-k],false,ctx);
                for(size_t n=0;n<k;++n) ++z;
                if(i==l.size()) MC_TRUE("zigzag does not return to end()",z==e);
                else { cmp_par1(z,l[i],false,ctx); MC_TRUE("zigzag reached end()",z!=e); }
            }
        size_t n=0; for(auto x: pr) { (void)x; ++n; if(n>l.size()) break; }
        MC_NUM("range-for over params()",n,l.size());
        cmp_positions(pr,l.size(),ctx);
    }
}
// compare v with the model on the selected observers
template<class V> inline void cmp(V& v, U const& u, string const& ctx, int what=w_all, bool deep=false)
{
    if(what&w_str){ cmp_str(v,u,ctx); cmp_str_extra(v,u,ctx); }
    if(what&w_raw) cmp_raw(v,u,ctx);
    if(what&w_type) cmp_type(v,u,ctx);
    if(what&w_dec) cmp_dec(v,u,ctx);
    if(what&w_seg) cmp_seg(v,u,ctx,deep);
    if(what&w_par) cmp_par(v,u,ctx,deep);
}
// a mutable url and its const face
template<class Url> inline void cmp_both(Url& v, U const& u, string const& ctx, int what=w_all, bool deep=false)
{
    Url const& c=v;
    cmp(c,u,ctx,what,deep);
    if(what&w_seg) cmp_seg(v,u,ctx+" (mutable)",deep);
    if(what&w_par) cmp_par(v,u,ctx+" (mutable)",deep);
}

//------------------------------------------------------------ operations
enum res { r_ok, r_invalid, r_noalloc, r_other };
inline const char* res_name(int r){ static const char* const n[]={"succeeded","threw invalid_part","threw bad_alloc","threw another exception"}; return n[r]; }

template<class Url> inline void do_op(Url& u, call const& c, size_t& ret, bool backwards=false)
{
    using namespace ref;
    auto s=bv(c.s);
    bu::url_base* self=&u; bu::url_base* r=self;
    switch(c.o)
    {
    case o_url: r=&u.set_encoded_url(s); break;
    case o_origin: r=&u.set_encoded_origin(s); break;
    case o_scheme: r=&u.set_scheme(s); break;
    case o_authority: r=&u.set_encoded_authority(s); break;
    case o_userinfo: r=&u.set_encoded_userinfo(s); break;
    case o_userinfo_part: r=&u.set_userinfo_part(s); break;
    case o_user: r=&u.set_user(s); break;
    case o_enc_user: r=&u.set_encoded_user(s); break;
    case o_password: r=&u.set_password(s); break;
    case o_enc_password: r=&u.set_encoded_password(s); break;
    case o_password_part: r=&u.set_password_part(s); break;
    case o_host: r=&u.set_host(s); break;
    case o_enc_host: r=&u.set_encoded_host(s); break;
    case o_portnum: r=&u.set_port(c.i); break;
    case o_port: r=&u.set_port(s); break;
    case o_port_part: r=&u.set_port_part(s); break;
    case o_path: r=&u.set_encoded_path(s); break;
    case o_query: r=&u.set_query(s); break;
    case o_enc_query: r=&u.set_encoded_query(s); break;
    case o_query_part: r=&u.set_query_part(s); break;
    case o_fragment: r=&u.set_fragment(s); break;
    case o_enc_fragment: r=&u.set_encoded_fragment(s); break;
    case o_fragment_part: r=&u.set_fragment_part(s); break;
    case o_normalize: r=&u.normalize(); break;
    case o_normalize_scheme: r=&u.normalize_scheme(); break;
    case o_assign: { Url v(u); v.set_encoded_url(s); u=v; break; }
    default:
    {
        auto sg=u.segments();
        auto at=[&](unsigned i)
        {
            auto it=backwards?sg.end():sg.begin();
            if(backwards) for(size_t k=sg.size();k>i;--k) --it;
            else for(unsigned k=0;k<i;++k) ++it;
            return it;
        };
        auto done=[&](typename std::decay<decltype(sg.begin())>::type it)
        {
            auto l=u.segments(); size_t k=0; auto z=l.begin();
            while(z!=it){ if(z==l.end()||k>l.size()+1){ ret=size_t(-1); return; } ++z; ++k; }
            ret=k;
        };
        switch(c.o)
        {
        case o_insert: done(sg.insert(at(c.i),s)); break;
        case o_insert_enc: done(sg.insert_encoded(at(c.i),s)); break;
        case o_replace: done(sg.replace(at(c.i),s)); break;
        case o_replace_enc: done(sg.replace_encoded(at(c.i),s)); break;
        case o_erase: done(sg.erase(at(c.i))); break;
        case o_erase_range: done(sg.erase(at(c.i),at(c.j))); break;
        }
    }
    }
    if(r!=self) mc::fail(string(op_name(c.o))+" does not return *this");
}
template<class Url> inline res do_call(Url& u, call const& c, size_t& ret, bool backwards=false)
{
    try { do_op(u,c,ret,backwards); return r_ok; }
    catch(bu::invalid_part const&){ return r_invalid; }
    catch(std::bad_alloc const&){ return r_noalloc; }
    catch(std::exception const&){ return r_other; }
}
inline string describe(call const& c)
{
    string d=ref::op_name(c.o); d+="(";
    if(c.o==ref::o_portnum) return d+std::to_string(c.i)+")";
    if(ref::is_segment_op(c.o))
    {
        d+=std::to_string(c.i);
        if(c.o==ref::o_erase) return d+")";
        if(c.o==ref::o_erase_range) return d+","+std::to_string(c.j)+")";
        d+=",";
    }
    if(c.o==ref::o_normalize||c.o==ref::o_normalize_scheme) return d+")";
    return d+quote(c.s)+")";
}
// a call packed into one case argument
enum { pack_size=9 };
inline string pack(call const& c){ string r; r.push_back(char(c.o)); for(int k=0;k<4;++k) r.push_back(char(c.i>>8*k&255)); for(int k=0;k<4;++k) r.push_back(char(c.j>>8*k&255)); return r+c.s; }
inline call unpack(sv p){ auto b=[&](int i){ return unsigned((unsigned char)p[i]); }; return call(int(b(0)),string(p.substr(pack_size)),b(1)|b(2)<<8|b(3)<<16|b(4)<<24,b(5)|b(6)<<8|b(7)<<16|b(8)<<24); }

//------------------------------------------------------------ tracking allocator
struct tracker
{
    struct blk { char* p; size_t n; int id; };
    std::vector<blk> live; size_t allocs=0; long fail_at=-1; // fail the fail_at-th allocation from now (0 = next)
    string error; int ids=0;
    enum { rz=32 };
    char* get(size_t n,int id)
    {
        if(fail_at==0){ fail_at=-1; throw std::bad_alloc(); }
        if(fail_at>0) --fail_at;
        if(n>(size_t(1)<<30)) throw std::bad_alloc();
        char* m=static_cast<char*>(std::malloc(n+2*rz)); if(!m) throw std::bad_alloc();
        std::memset(m,0xA5,rz); std::memset(m+rz,0xCC,n); std::memset(m+rz+n,0xA5,rz);
        live.push_back({m,n,id}); ++allocs; return m+rz;
    }
    void zone(blk const& b)
    {
        for(int k=0;k<rz;++k)
        {
            if((unsigned char)b.p[k]!=0xA5&&error.empty()) error="write before an allocated block";
            if((unsigned char)b.p[rz+b.n+k]!=0xA5&&error.empty()) error="write after an allocated block";
        }
    }
    void put(char* p,size_t n,int id) noexcept
    {
        for(size_t i=0;i<live.size();++i) if(live[i].p+rz==p)
        {
            zone(live[i]);
            if(live[i].n!=n&&error.empty()) error="block deallocated with size "+std::to_string(n)+", allocated with "+std::to_string(live[i].n);
            if(live[i].id!=id&&error.empty()) error="block returned to a different allocator";
            char* m=live[i].p; std::memset(m,0xDD,live[i].n+2*rz);
            live.erase(live.begin()+i); std::free(m); return;
        }
        if(error.empty()) error="deallocate of a block that is not allocated";
    }
    void check(){ for(auto& b: live) zone(b); if(!error.empty()) mc::fail("storage: "+error); }
    // is [p,p+n) inside one live block
    bool owns(char const* p,size_t n)
    {
        for(auto& b: live) if(p>=b.p+rz&&p+n<=b.p+rz+b.n) return true;
        return false;
    }
    void reset(){ for(auto& b: live) std::free(b.p); live.clear(); allocs=0; fail_at=-1; error.clear(); }
};
inline tracker& trk(){ static tracker t; return t; }
template<class T> struct talloc
{
    typedef T value_type; int id;
    talloc(int i=0):id(i){}
    template<class V> talloc(talloc<V> const& o):id(o.id){}
    T* allocate(size_t n){ return reinterpret_cast<T*>(trk().get(n*sizeof(T),id)); }
    void deallocate(T* p,size_t n) noexcept { trk().put(reinterpret_cast<char*>(p),n*sizeof(T),id); }
    template<class V> bool operator==(talloc<V> const& o) const { return id==o.id; }
    template<class V> bool operator!=(talloc<V> const& o) const { return id!=o.id; }
};
typedef bu::basic_url<talloc<char>> turl;

} // real
#endif
