// C03: host_type names the syntactic kind of the current host, however it came about.
#include "seq.hpp"
#include "inputs.hpp"
using namespace real;
static const strings ctxs={"","//h","//1.2.3.4/p","x://u:p@[::1]:8/p?q#f","//[v1.a]","//:1","//@","x:/a"};
static void parsed(mc::Args const& a) // a0: host text
{
    string h=a.s(0); int k=ref::host_class(h);
    if(k<0) return;
    static const char* const pre[]={"//","x://u:p@","//@"}; static const char* const post[]={"","/p",":80?q","#f",":"};
    for(auto p: pre) for(auto q: post)
    {
        string s=p+h+q; U u; if(!ref::parse(s,u)||u.host!=h) mc::fail("harness: host context "+s);
        string ctx="parse "+quote(s);
        bu::url_view v(bv(s)); cmp_type(v,u,ctx); MC_EQ("encoded_host()",v.encoded_host(),h);
        bu::url w(bv(s)); cmp_type(w,u,ctx);
        bu::url_view vc(v); cmp_type(vc,u,ctx+" copy"); bu::url wc(w); cmp_type(wc,u,ctx+" copy");
        mc::transitions(2);
    }
    static const char* const names[]={"none","name","ipv4","ipv6","ipvfuture"};
    mc::visit(h); mc::traces(); mc::outcome(names[k]);
}
static void set(mc::Args const& a) // a0: state, a1: host text as passed to set_host / set_encoded_host / authority / origin / url
{
    string h=a.s(1); U u0; ref::parse(a.s(0),u0);
    call cs[]={call(ref::o_host,h),call(ref::o_enc_host,h),call(ref::o_authority,h),call(ref::o_authority,"u@"+h+":1"),call(ref::o_origin,"y://"+h),call(ref::o_url,"//"+h+"/x"),call(ref::o_assign,"//"+h)};
    for(auto& c: cs)
    {
        bu::url v(bv(a[0])); U u=u0; size_t nx,ret;
        ref::verdict w=ref::apply(u,c,nx); if(w==ref::v_any) continue;
        res r=do_call(v,c,ret); mc::transitions();
        string ctx="url("+quote(a[0])+")."+describe(c);
        if(c.o==ref::o_host&&w==ref::v_ok&&r!=r_ok) mc::fail(ctx+" "+res_name(r));
        if(r==r_ok&&w==ref::v_ok)
        {
            MC_EQ("encoded_host()",v.encoded_host(),u.host); cmp_type(v,u,ctx); MC_EQ("host()",v.host(),dec_host(u));
            mc::outcome(ref::host_class(u.host)==ref::host_class(u0.host)?"kind kept":"kind changed");
        }
        else if(r!=r_ok) { MC_EQ("encoded_host() after refusal",v.encoded_host(),u0.host); cmp_type(v,u0,ctx); mc::outcome("refused"); }
    }
    mc::visit(a.s(0)+"\n"+h); mc::traces();
}
// any modification: the type follows the host that is there afterwards
static void hist(mc::Args const& a)
{
    bu::url v(bv(a[0]));
    for(size_t i=1;i<a.n;++i)
    {
        call c=unpack(a[i]); size_t ret=0;
        if(ref::is_segment_op(c.o)){ size_t n=v.segments().size(); bool ins=c.o==ref::o_insert||c.o==ref::o_insert_enc; if(c.i>n||(c.i==n&&!ins&&c.o!=ref::o_erase_range)||(c.o==ref::o_erase_range&&c.j>n)) break; }
        res r=do_call(v,c,ret); mc::transitions(); (void)r;
        string h(tosv(v.encoded_host())), ctx=seq::history(a,i);
        int k=ref::host_class(h); if(k<0) continue; // C06
        MC_NUM("host_type()",int(v.host_type()),k);
    }
    mc::visit(tosv(v.encoded_url())); mc::traces();
}
static int kp=mc::add_kind("parse-host",parsed), ks=mc::add_kind("set-host",set), kh=mc::add_kind("history",hist);
void mc::setup()
{
    auto both=[](string const& h){ mc::run(kp,h); for(auto& c: ctxs) mc::run(ks,c,h); };
    auto p=[](string const& h){ if(ref::host_class(h)>=0) mc::run(kp,h); };
    auto two=[](string const& h){ mc::run(kp,h); mc::run(ks,"//h",h); mc::run(ks,"x://u:p@[::1]:8/p?q#f",h); };
    inputs::ipv4_hosts("IPv4 octet variants","","",1,p);
    inputs::ipv4_hosts("IPv4 octet variants through setters","","",0,two);
    inputs::ipv6_hosts("IPv6 arrangements","","",1,p);
    inputs::ipv6_hosts("IPv6 arrangements through setters","","",0,two);
    mc::add_job("every value of an IPv6 group",256,[=](size_t sh){ for(unsigned lo=0;lo<256;++lo){ char x[8],y[8]; snprintf(x,8,"%x",unsigned(sh<<8|lo)); snprintf(y,8,"%04X",unsigned(sh<<8|lo)); for(string h: {string("[")+x+"::]",string("[::")+y+"]",string("[1:2:3:4:5:6:7:")+x+"]",string("[")+y+":2:3:4:5:6:7.8.9.1]",string("[::")+x+":1.2.3.4]"}) { mc::run(kp,h); mc::run(ks,"//h",h); } } });
    inputs::ipvfuture_hosts("","",thorough,p);
    inputs::framed("IPvFuture through setters","[",ref::strings{"v","V","1",".","g"},tier(5,7),"]",two);
    inputs::words("host words over 1 2 5 . 0 a",chars("125.0a"),tier(8,9),p);
    inputs::framed("dotted words","1.",chars("125.0"),tier(6,8),".9",p);
    inputs::framed("IPv6 words","[",chars("1:.f"),tier(9,11),"]",p);
    inputs::words("host words through setters",chars("1.[:]a% v"),tier(5,6),both);
    mc::add_job("all byte strings of length <=2 through setters",256,[=](size_t sh){ for(unsigned n=0;n<=2;++n) all_bytes(n,sh,[&](string const& s){ mc::run(ks,"//h",s); if(n<2) for(auto& c: ctxs) mc::run(ks,c,s); }); });
    mc::add_job("every byte at every position of each kind of host",256,[=](size_t b){ for(string h: {"1.2.3.4","[::1]","[v1.a]","host","[::1.2.3.4]","255.255.255.255"}) for(size_t i=0;i<=h.size();++i){ string x=h; x.insert(i,1,char(b)); two(x); if(i<h.size()){ x=h; x[i]=char(b); two(x); } } });
    inputs::address_like("address-like texts through setters",tier(3,4),". a1:%[]/@",two);
    using seq::step;
    ops::add_long("every call on states with a long component",thorough,0,[](string const& st, ref::call const& c){ seq::run_history(kh,st,{pack(c)}); });
    seq::add("every state x every call", ops::states(1), {step{ops::setters(2),1}}, kh);
    seq::add("every setter with spellings of what is there", ops::rich_states(), {step{ops::setters(2),1,true}}, kh);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{ops::setters(1),0}}, kh);
    seq::add_periodic("every pair of calls repeated eleven times", {"","x://u:p@h:1/a/b?k=v#f","a/b","//[::1]/?#","x:/.//y"}, ops::setters(0), -1, 2, kh);
    seq::add("every pair of calls", ops::few_states(), {step{ops::setters(1),1},step{ops::setters(1),0}}, kh);
    if(thorough) seq::add("every triple of calls", ops::few_states(), {step{ops::setters(0),0},step{ops::setters(0),0},step{ops::setters(0),0}}, kh);
}
