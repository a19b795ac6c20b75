// C04: plain setters and decoded getters round-trip arbitrary bytes.
#include "seq.hpp"
#include "inputs.hpp"
using namespace real;
static const int plain[]={ref::o_user,ref::o_password,ref::o_host,ref::o_query,ref::o_fragment,ref::o_insert,ref::o_replace};
template<class Url> static string getter(Url const& v, call const& c)
{
    talloc<char> al(7);
    auto str=[](bu::string_type<talloc<char>> const& s){ return string(s.data(),s.size()); };
    switch(c.o)
    {
    case ref::o_user: return str(v.user(al)); case ref::o_password: return str(v.password(al)); case ref::o_host: return str(v.host(al));
    case ref::o_query: return str(v.query(al)); case ref::o_fragment: return str(v.fragment(al));
    default: { auto sg=v.segments(); auto it=sg.begin(); for(unsigned i=0;i<c.i;++i) ++it; return str((*it).string(al)); }
    }
}
static void round(mc::Args const& a) // state, packed call
{
    call c=unpack(a[1]); U u; ref::parse(a.s(0),u); size_t nx,ret;
    ref::verdict w=ref::apply(u,c,nx);
    if(w!=ref::v_ok) return; // ambiguous: C20
    bu::url v(bv(a[0]));
    string ctx="url("+quote(a[0])+")."+describe(c);
    res r=do_call(v,c,ret);
    if(r!=r_ok) mc::fail(ctx+" "+res_name(r)+": plain setters accept any bytes");
    // the component reads back as the very bytes that were set
    string dec, enc; ref::cls ok=nullptr;
    bu::url const& cv=v; bu::url_view vv(cv.encoded_url());
    switch(c.o)
    {
    case ref::o_user: dec=v.user(); enc=string(tosv(v.encoded_user())); ok=ref::c_user; break;
    case ref::o_password: dec=v.password(); enc=string(tosv(v.encoded_password())); ok=ref::c_userinfo; break;
    case ref::o_host: dec=v.host(); enc=string(tosv(v.encoded_host())); ok=ref::c_regname; break;
    case ref::o_query: dec=v.query(); enc=string(tosv(v.encoded_query())); ok=ref::c_query; break;
    case ref::o_fragment: dec=v.fragment(); enc=string(tosv(v.encoded_fragment())); ok=ref::c_query; break;
    default: { auto sg=v.segments(); auto it=sg.begin(); for(unsigned i=0;i<c.i;++i) ++it; dec=(*it).string(); enc=string(tosv((*it).encoded_string())); ok=ref::c_pchar; }
    }
    MC_EQ("decoded value",dec,c.s);
    int hk=c.o==ref::o_host?ref::host_class(c.s):ref::h_name;
    if(hk==ref::h_name||hk<0) MC_EQ("encoded value",enc,ref::encode(c.s,ok)); else MC_EQ("encoded address",enc,c.s);
    MC_EQ("decoded value (caller's allocator, url)",getter(cv,c),c.s);
    MC_EQ("decoded value (caller's allocator, url_view)",getter(vv,c),c.s);
    if(!trk().live.empty()){ mc::fail("decoded strings leak ["+ctx+"]"); }
    cmp_dec(cv,u,ctx); cmp_dec(vv,u,ctx);
    mc::visit(a.s(0)+"\n"+a.s(1)); mc::transitions(); mc::traces();
    mc::outcome(enc==c.s?"stored verbatim":"escaped");
}
static void decoded(mc::Args const& a) // encoded text, decoded by every getter it is legal in
{
    string e=a.s(0);
    string url[]={"//"+e+":"+e+"@h","//"+e,"/"+e+"/"+e,"?"+e,"#"+e,"x://"+e+"@"+e+"/"+e+"?"+e+"#"+e};
    for(auto& s: url)
    {
        U u; if(!ref::parse(s,u)) continue;
        string ctx=quote(s); bu::url_view v(bv(s)); cmp_dec(v,u,ctx); cmp_seg(v,u,ctx,true); cmp_par(v,u,ctx,true);
        bu::url w(bv(s)); cmp_dec(w,u,ctx); cmp_seg(w,u,ctx,true); cmp_par(w,u,ctx,true);
        talloc<char> al(3);
        MC_EQ("user(a)",v.user(al),ref::decode(u.user)); MC_EQ("password(a)",v.password(al),ref::decode(u.pass)); MC_EQ("host(a)",v.host(al),dec_host(u)); MC_EQ("query(a)",v.query(al),ref::decode(u.query)); MC_EQ("fragment(a)",w.fragment(al),ref::decode(u.frag));
        ref::strings l=ref::segments(u.path); auto sg=v.segments(); auto it=sg.begin(); for(auto& x: l){ MC_EQ("segment string(a)",(*it).string(al),ref::decode(x)); ++it; }
        ref::pairs pl=ref::params(u); auto pr=v.params(); auto pi=pr.begin(); for(auto& x: pl){ MC_EQ("param key(a)",(*pi).key(al),ref::decode(x.first)); MC_EQ("param value(a)",(*pi).value(al),ref::decode(x.second)); ++pi; }
        if(!trk().live.empty()) mc::fail("decoded strings leak ["+ctx+"]");
        mc::transitions(); mc::outcome(ref::decode(e)==e?"nothing to decode":"decoded");
    }
    mc::visit(e); mc::traces();
}
static int kr=mc::add_kind("roundtrip",round), kd=mc::add_kind("decode",decoded);
static void rounds(string const& w, strings const& st)
{
    for(auto& s: st)
    {
        U u; ref::parse(s,u); unsigned n=unsigned(ref::segments(u.path).size());
        for(int o: plain)
            if(o==ref::o_insert||o==ref::o_replace){ for(unsigned i=0;i<n+(o==ref::o_insert);++i) mc::run(kr,s,pack(call(o,w,i))); }
            else mc::run(kr,s,pack(call(o,w)));
    }
}
void mc::setup()
{
    static const strings few={"","x://u:p@h:1/a?q#f"}, many=ops::few_states();
    mc::add_job("all byte strings of length <=2, two states",256,[](size_t sh){ for(unsigned n=0;n<=2;++n) all_bytes(n,sh,[&](string const& w){ rounds(w,few); }); });
    mc::add_job("every byte, all selected states, in front, middle and end",256,[](size_t b){ string c(1,char(b)); for(string w: {c,"a"+c,c+"a","a"+c+"b",c+c,c+c+c,"%"+c,"%4"+c}) rounds(w,many); });
    inputs::words("argument words over delimiters",chars("a:@/?#% &=.[]"),tier(3,5),[](string const& w){ rounds(w,few); });
    inputs::words("argument words in all states",{string(1,'\0'),"a","%","\xff"," ","/"},tier(4,6),[](string const& w){ rounds(w,many); });
    mc::add_job("every escape, both letter cases, alone and in context",256,[](size_t b){ char u[8],l[8],m[8],n[8]; snprintf(u,8,"%%%02X",unsigned(b)); snprintf(l,8,"%%%02x",unsigned(b)); snprintf(m,8,"%%%c%c",u[1],l[2]); snprintf(n,8,"%%%c%c",l[1],u[2]);
        for(string e: {u,l,m,n}) for(string x: {e,"a"+e,e+"a","a"+e+"b"+e,e+"%41",e+e+e}) mc::run(kd,x); });
    inputs::words("escape words",{"%00","%4f","%Aa","%25","a","%2F",".","=","&"},tier(5,7),[](string const& w){ mc::run(kd,w); });
    mc::add_job("all escape pairs",256,[](size_t b){ for(unsigned c=0;c<256;++c){ char u[8]; snprintf(u,8,"%%%02X%%%02x",unsigned(b),c); mc::run(kd,u); } });
    inputs::needle_texts("every byte at every position of an encoded text",tier(10,24),[](string const& t){ mc::run(kd,t); });
    mc::add_job("every byte at every position of an argument",256,[](size_t b){ for(size_t n=0;n<=size_t(tier(8,20));++n) for(size_t p=0;p<=n;++p){ string w(n,'a'); w.insert(p,1,char(b)); rounds(w,few); } });
    static const auto L=mc::lengths(3,tier(270,600),{1000,1023,1024,1025,4096,20000,65536});
    mc::add_job("byte strings of every length",L.size(),[](size_t i){ string w; for(size_t k=0;k<L[i];++k) w.push_back(char(k*37)); rounds(w,many); rounds(string(L[i],'a'),many); rounds(string(L[i],' '),many); string e; for(size_t k=0;k<L[i];++k) e+=k%3?"a":"%20"; mc::run(kd,e); });
    inputs::address_like("address-like hosts, extended",tier(3,5),". a1:%[]/@",[](string const& h){ for(auto& s: few) mc::run(kr,s,pack(call(ref::o_host,h))); });
    for(auto h: {"1.2.3.4","[::1]","[v1.x]","255.255.255.255","[::ffff:1.2.3.4]","[::","1.2.3","[v1.]","256.1.1.1","::1"}) { string x=h; mc::add_job("address-like hosts",1,[x](size_t){ for(auto& s: many) mc::run(kr,s,pack(call(ref::o_host,x))); }); }
}
