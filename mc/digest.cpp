// C21: one deterministic program, built in every configuration of the library; it runs the same
// exhaustive set of inputs and operation histories and prints a digest of everything observable
// per block of cases. C++11, no dependency besides the library and ref.hpp/ops.hpp.
//   digest N i        digests of the blocks of the i-th of N slices
//   digest --dump B   the observable record of every case of block B, in clear
#include <boost/url.hpp>
#include <boost/url/static_pool.hpp>
#include <boost/url/scheme.hpp>
#include "ref.hpp"
#include "ops.hpp"
#include <cstdio>
#include <cstdlib>
#include <sstream>
namespace bu = boost::urls;
using std::string;
using ref::call; using ref::U;
static string rec; // record of the current case
static void out(bu::string_view s){ char b[24]; snprintf(b,24,"%zu:",s.size()); rec+=b; rec.append(s.data()?s.data():"",s.size()); rec+=' '; }
static void out(string const& s){ out(bu::string_view(s.data(),s.size())); }
static void num(long long n){ char b[32]; snprintf(b,32,"%lld ",n); rec+=b; }
static bu::string_view bv(string const& s){ return bu::string_view(s.data(),s.size()); }
template<class V> static void observe(V& v)
{
    out(v.encoded_url()); out(v.encoded_origin()); out(v.scheme()); num(v.has_authority()); out(v.encoded_authority()); num(v.has_userinfo()); out(v.encoded_userinfo()); out(v.userinfo_part()); out(v.user()); out(v.encoded_user()); out(v.password()); out(v.encoded_password()); num(int(v.host_type())); out(v.encoded_host_and_port()); out(v.host()); out(v.encoded_host()); out(v.port()); out(v.port_part()); out(v.encoded_path()); out(v.query()); out(v.encoded_query()); out(v.query_part()); out(v.fragment()); out(v.encoded_fragment()); out(v.fragment_part());
    auto sg=v.segments(); num((long long)sg.size()); size_t lim=v.size()+2;
    for(auto it=sg.begin();it!=sg.end()&&lim--;++it){ out((*it).encoded_string()); out((*it).string()); }
    lim=v.size()+2; for(auto it=sg.end();it!=sg.begin()&&lim--;){ --it; out((*it).encoded_string()); }
    auto pr=v.params(); num((long long)pr.size()); lim=v.size()+2;
    for(auto it=pr.begin();it!=pr.end()&&lim--;++it){ out((*it).encoded_key()); out((*it).encoded_value()); out((*it).key()); out((*it).value()); }
    lim=v.size()+2; for(auto it=pr.end();it!=pr.begin()&&lim--;){ --it; out((*it).encoded_key()); }
    static const char* const ks[]={"","k","a"};
    for(int i=0;i<3;++i){ bu::string_view k(ks[i]); num((long long)pr.count(k)); num(pr.contains(k)); out(pr[k]); try { out(pr.at(k)); } catch(bu::out_of_range const&){ rec+="OOR "; } }
}
template<class F> static bool guarded(F f)
{
    try { f(); rec+="ok "; return true; }
    catch(bu::invalid_part const&){ rec+="invalid_part "; }
    catch(bu::out_of_range const&){ rec+="urls::out_of_range "; }
    catch(std::bad_alloc const&){ rec+="bad_alloc "; }
    catch(std::invalid_argument const&){ rec+="invalid_argument "; }
    catch(std::exception const&){ rec+="exception "; }
    return false;
}
template<class Url> static void op(Url& u, call const& c)
{
    using namespace ref; bu::string_view s=bv(c.s);
    switch(c.o)
    {
    case o_url: u.set_encoded_url(s); break; case o_origin: u.set_encoded_origin(s); break; case o_scheme: u.set_scheme(s); break; case o_authority: u.set_encoded_authority(s); break; case o_userinfo: u.set_encoded_userinfo(s); break; case o_userinfo_part: u.set_userinfo_part(s); break; case o_user: u.set_user(s); break; case o_enc_user: u.set_encoded_user(s); break; case o_password: u.set_password(s); break; case o_enc_password: u.set_encoded_password(s); break; case o_password_part: u.set_password_part(s); break; case o_host: u.set_host(s); break; case o_enc_host: u.set_encoded_host(s); break; case o_portnum: u.set_port(c.i); break; case o_port: u.set_port(s); break; case o_port_part: u.set_port_part(s); break; case o_path: u.set_encoded_path(s); break; case o_query: u.set_query(s); break; case o_enc_query: u.set_encoded_query(s); break; case o_query_part: u.set_query_part(s); break; case o_fragment: u.set_fragment(s); break; case o_enc_fragment: u.set_encoded_fragment(s); break; case o_fragment_part: u.set_fragment_part(s); break; case o_normalize: u.normalize(); break; case o_normalize_scheme: u.normalize_scheme(); break;
    case o_assign: { Url v; v.set_encoded_url(s); u=v; break; }
    default:
    {
        auto sg=u.segments(); size_t n=sg.size(); bool ins=c.o==o_insert||c.o==o_insert_enc;
        if(c.i>n||(c.i==n&&!ins&&c.o!=o_erase_range)||(c.o==o_erase_range&&c.j>n)){ rec+="skip "; return; }
        auto it=sg.begin(), jt=sg.begin(); for(unsigned k=0;k<c.i;++k) ++it; for(unsigned k=0;k<c.j;++k) ++jt;
        auto r=it;
        switch(c.o){ case o_insert: r=sg.insert(it,s); break; case o_insert_enc: r=sg.insert_encoded(it,s); break; case o_replace: r=sg.replace(it,s); break; case o_replace_enc: r=sg.replace_encoded(it,s); break; case o_erase: r=sg.erase(it); break; default: r=sg.erase(it,jt); }
        auto l=u.segments(); long long k=0; for(auto z=l.begin();z!=r&&k<=(long long)l.size();++z) ++k; num(k);
    }
    }
}
// ---- blocks
static unsigned long long hash_=0; static long block=0, want=-1; static unsigned slices=1, slice=0; static long ncase=0; static bool active=false; static string label;
static bool open_block(){ ++block; hash_=1469598103934665603ull; ncase=0; active= want>=0 ? block==want : unsigned(block%slices)==slice; return active; }
static void close_block(){ if(active&&want<0) printf("%ld %ld %016llx\n",block,ncase,hash_); active=false; }
static void end_case(string const& what)
{
    ++ncase;
    if(want>=0) { string t; for(size_t i=0;i<what.size()+rec.size()+4;++i){ char c= i<what.size()?what[i]: i<what.size()+4?" => "[i-what.size()]:rec[i-what.size()-4]; if(c>=32&&c<127&&c!='\\') t.push_back(c); else { char b[8]; snprintf(b,8,"\\x%02x",(unsigned char)c); t+=b; } } puts(t.c_str()); }
    for(size_t i=0;i<rec.size();++i) hash_=(hash_^(unsigned char)rec[i])*1099511628211ull;
    hash_=(hash_^0x1ff)*1099511628211ull; rec.clear();
}
static void parse_case(string const& s)
{
    guarded([&]{ bu::url_view v(bv(s)); observe(v); bu::url_view w(v); out(w.encoded_url()); });
    guarded([&]{ bu::url v(bv(s)); observe(static_cast<bu::url const&>(v)); observe(v); out(v.password_part()); num(v.data()[v.size()]); bu::url w(v); observe(w); });
    guarded([&]{ bu::url v; v.set_encoded_url(bv(s)); out(v.encoded_url()); });
    bu::scheme k=bu::string_to_scheme(bv(s)); num(int(k)); out(bu::to_string(k)); num(bu::is_special(bv(s)));
    end_case("parse "+s);
}
static string show(call const& c){ std::ostringstream o; o<<ref::op_name(c.o)<<"("<<c.i<<","<<c.j<<","<<c.s<<")"; return o.str(); }
static void hist_case(string const& s, ref::call const* a, size_t n)
{
    string what="url("+s+")"; bu::url v(bv(s));
    for(size_t i=0;i<n;++i){ what+="."+show(a[i]); guarded([&]{ op(v,a[i]); }); }
    observe(static_cast<bu::url const&>(v)); out(v.password_part()); num(v.segments().size()); num(v.data()[v.size()]); num(v.capacity()>=v.size());
    end_case(what);
}
static void words(string const& pre, ref::strings const& A, unsigned len, string const& post)
{
    // a block per two-symbol prefix
    for(size_t i=0;i<=A.size();++i)
    {
        if(i==A.size()){ if(open_block()){ parse_case(pre+post); for(auto& x: A) parse_case(pre+x+post); } close_block(); continue; }
        for(size_t j=0;j<A.size();++j)
        {
            if(open_block()) { struct R { ref::strings const& A; string pre,post; void go(string& b,unsigned left){ parse_case(pre+b+post); if(!left) return; for(auto& x: A){ size_t n=b.size(); b+=x; go(b,left-1); b.resize(n); } } } r={A,pre,post}; string b=A[i]+A[j]; r.go(b,len-2); }
            close_block();
        }
    }
}
static ref::strings chars(const char* s){ ref::strings r; for(;*s;++s) r.push_back(string(1,*s)); return r; }
std::size_t second_unit(char const* p,std::size_t n); // tu2.cpp
int main(int argc,char** argv)
{
    bool deep=false;
    for(int i=1;i<argc;++i){ string a=argv[i]; if(a=="--deep") deep=true; else if(a=="--dump") want=atol(argv[++i]); else { slices=unsigned(atoi(argv[i])); slice=unsigned(atoi(argv[i+1])); ++i; } }
    // inputs
    for(int b=0;b<256;++b){ if(open_block()){ string c(1,char(b)); parse_case(c); for(int d=0;d<256;++d){ string e=c+string(1,char(d)); parse_case(e); parse_case("%"+e); if(deep||d%4==0){ parse_case("//"+e+"@h"); parse_case("//"+e); parse_case("/"+e); parse_case("?"+e); parse_case("#"+e); parse_case("x:"+e); } } } close_block(); }
    words("",chars("a:/?#@%1.[]"),deep?6:5,""); words("",chars("a:/?#@"),deep?8:6,""); words("//",chars("a1:@.%"),deep?7:5,"/"); words("//[",chars("1:.f"),deep?9:7,"]"); words("?",chars("k=&%"),deep?7:6,"#f");
    { ref::strings t; const char* const k[]={"http",":","//","u@","h","1.2.3.4","[::1]",":8","/","p","?","k=v","&","#","%4f"}; for(auto x: k) t.push_back(x); words("",t,deep?5:4,""); }
    { ref::strings st=ops::states(2); for(size_t i=0;i<st.size();i+=64){ if(open_block()) for(size_t k=i;k<st.size()&&k<i+64;++k) parse_case(st[k]); close_block(); } }
    // every byte at every position of some texts, replacing and inserted
    { ref::strings st=ops::rich_states(); for(auto& s: st) for(size_t i=0;i<=s.size();++i){ if(open_block()) for(int b=0;b<256;++b){ string x=s; x.insert(i,1,char(b)); parse_case(x); if(i<s.size()){ x=s; x[i]=char(b); parse_case(x); } } close_block(); } }
    for(int b=0;b<256;++b){ if(open_block()){ string c(1,char(b)); for(const char* w: {"http","HTTPS","ftp","File","ws","WSS"}){ string s(w); for(size_t i=0;i<=s.size();++i){ string x=s; x.insert(i,c); parse_case(x); parse_case(x+":p"); if(i<s.size()){ x=s; x[i]=char(b); parse_case(x); } } } } close_block(); }
    // arguments: every byte at every position, to every setter
    { using namespace ref; const int O[]={o_url,o_origin,o_scheme,o_authority,o_userinfo,o_userinfo_part,o_user,o_enc_user,o_password,o_enc_password,o_password_part,o_host,o_enc_host,o_port,o_port_part,o_path,o_query,o_enc_query,o_query_part,o_fragment,o_enc_fragment,o_fragment_part};
      for(int b=0;b<256;++b){ if(open_block()){ string c(1,char(b)); for(int o: O) for(const char* s: {"","x://u:p@h:1/a/b?k=v#f"}) for(string t: {c,"a"+c,c+"a","a"+c+"b",":"+c,"?"+c,"#"+c,"%"+c+"1","%1"+c,"1."+c+".2.3","[::"+c+"]"}){ call x(o,t); hist_case(s,&x,1); } } close_block(); }
      for(size_t n: {15,16,17,31,32,33,63,64,65,127,128,255,256,257,1000,4096,65536}) { if(open_block()){ string v(n,'1'), e(n,'a'); for(size_t i=3;i<n;i+=7) e[i]=' '; for(int o: O) for(const char* s: {"","x://u:p@h:1/a/b?k=v#f"}) for(string t: {v,e,"/"+v,":"+v,"?"+v,"#"+v,v+"@"}){ call x(o,t); hist_case(s,&x,1); } } close_block(); } }
    for(size_t n: {1,2,7,8,9,15,16,17,31,32,33,63,64,65,127,128,255,256,257,4096,65535,65536}) for(auto& s: ops::long_states(n)) { if(open_block()){ parse_case(s); for(auto& c: ops::setters(0)) hist_case(s,&c,1); } close_block(); }
    // what a setter is given repeats what is there
    for(auto& s: ops::rich_states()){ if(open_block()){ U u; ref::parse(s,u); for(auto& c: ops::derived(u)) hist_case(s,&c,1); } close_block(); }
    // histories
    { ref::strings st=ops::states(deep?1:0); ops::calls s2=ops::setters(2); for(auto& s: st){ if(open_block()){ U u; ref::parse(s,u); ops::calls cs=ops::all(u,s2,deep?2:1); for(auto& c: cs) hist_case(s,&c,1); } close_block(); } }
    { ref::strings st=ops::few_states(); ops::calls s0=ops::setters(0), s1=ops::setters(1); for(auto& s: st){ U u; ref::parse(s,u); ops::calls cs=ops::all(u,s0,0); for(auto& c: cs){ if(open_block()){ call a[2]={c,c}; for(auto& d: deep?s1:s0){ a[1]=d; hist_case(s,a,2); } ops::calls e=ops::edits(3,0); for(auto& d: e){ a[1]=d; hist_case(s,a,2); } } close_block(); } } }
    // static pools
    for(int cap=0;cap<80;++cap){ if(open_block()) for(auto& s: ops::few_states()) for(auto& c: ops::setters(0)) { char buf[96]; bu::basic_static_pool p(buf,size_t(cap)); guarded([&]{ bu::basic_url<bu::basic_static_pool::allocator_type<char>> v(p.allocator()); v.set_encoded_url(bv(s)); guarded([&]{ op(v,call(c.o==ref::o_assign?int(ref::o_url):c.o,c.s,c.i,c.j)); }); out(v.encoded_url()); num(v.segments().size()); num(v.params().size()); }); end_case("pool"); } close_block(); }
    // the library used from a second translation unit
    for(auto& s: ops::states(0)){ if(open_block()) { guarded([&]{ num(second_unit(s.data(),s.size())); }); end_case("second unit"); } close_block(); }
    // error codes
    if(open_block()){ for(int e=1;e<=15;++e){ bu::error_code c=bu::error(e); num(c.value()); out(string(c.category().name())); out(c.message()); num(c==bu::condition::parse_error); end_case("error code"); } } close_block();
    return 0;
}
