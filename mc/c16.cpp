// C16: no input makes the parser, the views or a setter crash, hang or read out of bounds.
// AddressSanitizer + UBSan + assertions; every text sits in a heap block of exactly its size.
#include "seq.hpp"
#include "inputs.hpp"
using namespace real;
struct exact // a heap copy with nothing after it
{
    char* p; size_t n; exact(sv s):p(new char[s.size()]),n(s.size()){ if(n) std::memcpy(p,s.data(),n); } ~exact(){ delete[] p; }
    exact(exact const&)=delete; bu::string_view view() const { return bu::string_view(p,n); }
};
static volatile unsigned sinkv;
static void eat(bu::string_view s){ unsigned h=0; for(char c: s) h=h*31+(unsigned char)c; sinkv=h; }
static void eat(std::string const& s){ eat(bu::string_view(s.data(),s.size())); }
template<class V> static void use(V& v, bool lookups)
{
    eat(v.encoded_url()); eat(v.encoded_origin()); eat(v.scheme()); eat(v.encoded_authority()); eat(v.encoded_userinfo()); eat(v.userinfo_part()); eat(v.encoded_user()); eat(v.encoded_password()); eat(v.encoded_host_and_port()); eat(v.encoded_host()); eat(v.port()); eat(v.port_part()); eat(v.encoded_path()); eat(v.encoded_query()); eat(v.query_part()); eat(v.encoded_fragment()); eat(v.fragment_part());
    sinkv=v.has_authority()+v.has_userinfo()+int(v.host_type());
    eat(v.user()); eat(v.password()); eat(v.host()); eat(v.query()); eat(v.fragment());
    string ctx="walk";
    { auto sg=v.segments(); size_t n=0, lim=v.size()+2; auto b=sg.begin(), e=sg.end(); for(auto it=b;it!=e;++it){ eat((*it).encoded_string()); eat((*it).string()); MC_TRUE("segment iteration does not end",++n<=lim); } for(auto it=e;it!=b;){ --it; eat(it->encoded_string()); MC_TRUE("backward segment iteration does not end",n--!=size_t(-2)-lim&&n!=size_t(-2)); if(n==0) break; } sinkv=unsigned(sg.size()); }
    { auto pr=v.params(); size_t n=0, lim=v.size()+2; auto b=pr.begin(), e=pr.end(); for(auto it=b;it!=e;++it){ eat((*it).encoded_key()); eat((*it).encoded_value()); eat((*it).key()); eat((*it).value()); MC_TRUE("param iteration does not end",++n<=lim); } for(auto it=e;it!=b;){ --it; eat(it->encoded_key()); eat(it->encoded_value()); if(n--==0||n==0) break; }
      if(lookups) for(const char* k: {"","a","k","&"}){ exact x(k); sinkv=unsigned(pr.count(x.view()))+pr.contains(x.view()); auto it=pr.find(x.view()); if(it!=pr.end()) eat((*it).value()); eat(pr[x.view()]); try { eat(pr.at(x.view())); } catch(bu::out_of_range const&){} } }
}
static void parse(mc::Args const& a)
{
    exact e(a[0]); int ok=0;
    try { bu::url_view v(e.view()); ++ok; use(v,true); } catch(bu::invalid_part const&){}
    try { bu::url v(e.view()); ++ok; use(static_cast<bu::url const&>(v),true); use(v,true); } catch(bu::invalid_part const&){}
    if(!ok||true){ bu::url v(bv("x://u:p@h:1/a?k=v#f")); try { v.set_encoded_url(e.view()); ++ok; use(v,false); } catch(bu::invalid_part const&){} }
    sinkv=unsigned(bu::string_to_scheme(e.view()));
    mc::visit(a[0]); mc::transitions(3); mc::traces(); mc::outcome(ok?"accepted":"refused");
}
static void setter(mc::Args const& a) // state, packed call; the argument in an exact block
{
    call c=unpack(a[1]); exact st(a[0]); exact arg(c.s); bu::url v(st.view()); size_t ret=0; bool ok=true;
    if(ref::is_segment_op(c.o))
    {
        auto sg=v.segments(); if(c.i>sg.size()) return; bool ins=c.o==ref::o_insert||c.o==ref::o_insert_enc; if(c.i==sg.size()&&!ins) return; auto it=sg.begin(); for(unsigned i=0;i<c.i;++i) ++it;
        try { if(c.o==ref::o_insert) sg.insert(it,arg.view()); else if(c.o==ref::o_insert_enc) sg.insert_encoded(it,arg.view()); else if(c.o==ref::o_replace) sg.replace(it,arg.view()); else sg.replace_encoded(it,arg.view()); } catch(bu::invalid_part const&){ ok=false; }
    }
    else
    {
        auto s=arg.view();
        try { switch(c.o){ case ref::o_url: v.set_encoded_url(s); break; case ref::o_origin: v.set_encoded_origin(s); break; case ref::o_scheme: v.set_scheme(s); break; case ref::o_authority: v.set_encoded_authority(s); break; case ref::o_userinfo: v.set_encoded_userinfo(s); break; case ref::o_userinfo_part: v.set_userinfo_part(s); break; case ref::o_user: v.set_user(s); break; case ref::o_enc_user: v.set_encoded_user(s); break; case ref::o_password: v.set_password(s); break; case ref::o_enc_password: v.set_encoded_password(s); break; case ref::o_password_part: v.set_password_part(s); break; case ref::o_host: v.set_host(s); break; case ref::o_enc_host: v.set_encoded_host(s); break; case ref::o_port: v.set_port(s); break; case ref::o_port_part: v.set_port_part(s); break; case ref::o_path: v.set_encoded_path(s); break; case ref::o_query: v.set_query(s); break; case ref::o_enc_query: v.set_encoded_query(s); break; case ref::o_query_part: v.set_query_part(s); break; case ref::o_fragment: v.set_fragment(s); break; case ref::o_enc_fragment: v.set_encoded_fragment(s); break; case ref::o_fragment_part: v.set_fragment_part(s); break; default: do_op(v,c,ret); } } catch(bu::invalid_part const&){ ok=false; }
    }
    use(v,false);
    mc::visit(a.s(0)+"\n"+a.s(1)); mc::transitions(); mc::traces(); mc::outcome(ok?"setter accepted":"setter refused");
}
static void hist(mc::Args const& a)
{
    bu::url v(bv(a[0]));
    for(size_t i=1;i<a.n;++i)
    {
        call c=unpack(a[i]); size_t ret=0;
        if(ref::is_segment_op(c.o)){ size_t n=v.segments().size(); bool ins=c.o==ref::o_insert||c.o==ref::o_insert_enc; if(c.i>n||(c.i==n&&!ins&&c.o!=ref::o_erase_range)||(c.o==ref::o_erase_range&&c.j>n)) break; }
        do_call(v,c,ret); mc::transitions();
    }
    use(v,false); mc::visit(tosv(v.encoded_url())); mc::traces(); mc::outcome("history");
}
static int kp=mc::add_kind("parse",parse), ks=mc::add_kind("setter",setter), kh=mc::add_kind("history",hist);
void mc::setup()
{
    using namespace ref;
    auto f=[](string const& s){ mc::run(kp,s); };
    inputs::add_all(f,thorough?0:-1);
    if(thorough) inputs::add_valid(f);
    static const int all[]={o_url,o_origin,o_scheme,o_authority,o_userinfo,o_userinfo_part,o_user,o_enc_user,o_password,o_enc_password,o_password_part,o_host,o_enc_host,o_port,o_port_part,o_path,o_query,o_enc_query,o_query_part,o_fragment,o_enc_fragment,o_fragment_part,o_insert,o_insert_enc,o_replace,o_replace_enc};
    static const strings st={"","x://u:p@h:1/a/b?k=v#f","a"};
    auto args=[](string const& w){ for(auto& s: st) for(int o: all) mc::run(ks,s,pack(call(o,w,s.size()>3?1:0))); };
    inputs::words("setter argument words",chars("a:/?#@%1.[]"),tier(3,4),args);
    inputs::words("setter argument tokens",{"[","v1",".",":",":","::","1","%4","%41","@","/","a","?","#"},tier(3,4),args);
    mc::add_job("setter arguments: every byte, truncated escapes",256,[=](size_t b){ string c(1,char(b)); args(c); args("a"+c); args("%"+c); args("%4"+c); args(":"+c); args("["+c); args("[v"+c); args("1."+c); args("x:"+c); args("x://"+c); args("x://"+c+"@"); });
    static const auto L=mc::lengths(2,tier(140,400),{255,256,257,511,512,513,1023,1024,1025,4096,65535,65536});
    mc::add_job("setter arguments of every length",L.size(),[=](size_t i){ string e,m; for(size_t k=0;k<L[i];++k){ e+= k%3?"a":"%41"; m.push_back(char(k*37)); } for(string const& w: {string(L[i],'a'),string(L[i],' '),string(L[i],'1'),string(L[i],'/'),"/"+string(L[i],'a'),"x://"+string(L[i],'a'),"?"+string(L[i],'&'),":"+string(L[i],'9'),"[v1."+string(L[i],'a')+"]",e,m}) args(w); });
    ops::add_long("every call on states with a long component",thorough,0,[](string const& st, ref::call const& c){ seq::run_history(kh,st,{pack(c)}); });
    using seq::step;
    seq::add("every state x every call", ops::states(0), {step{ops::setters(2),2}}, kh);
    seq::add("every setter with spellings of what is there", ops::rich_states(), {step{ops::setters(2),2,true}}, kh);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{ops::setters(1),1}}, kh);
    seq::add("every pair of calls", ops::few_states(), {step{ops::setters(0),0},step{ops::setters(0),0}}, kh);
}
