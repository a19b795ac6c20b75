// C08: encoded setters accept exactly the documented grammar in context.
// C20 (compiled with -DAMBIG): with a well-formed argument, refusal exactly when ambiguous.
#include "seq.hpp"
#include "inputs.hpp"
using namespace real;
static void one(mc::Args const& a)
{
    string s=a.s(0); call c=unpack(a[1]); U u;
    if(!ref::parse(s,u)) mc::fail("harness: bad state");
    bool amb=false; size_t nx; U t=u;
    ref::verdict w=ref::apply(t,c,nx,&amb);
    if(w==ref::v_any) return;
#ifdef AMBIG
    if(w==ref::v_throw&&!amb)
    {
        // is it only the context that makes it refused? (path grammar depends on the URL)
        bool ctxdep=false;
        if(c.o==ref::o_path) ctxdep=ref::path_ok(c.s,true,false)||ref::path_ok(c.s,false,true);
        if(ref::is_segment_op(c.o)) ctxdep=!(c.o==ref::o_insert_enc||c.o==ref::o_replace_enc)||ref::enc_ok(c.s,ref::c_pchar);
        if(!ctxdep) return; // malformed argument: C08
    }
#else
    if(amb) return;     // C20
#endif
    bu::url v(bv(a[0])); size_t ret;
    res r=do_call(v,c,ret);
    string ctx=seq::history(a,1);
    if(w==ref::v_ok&&r!=r_ok) mc::fail(ctx+" "+res_name(r)+", should be accepted");
    if(w==ref::v_throw&&r==r_ok) mc::fail(ctx+" is accepted (result "+quote(tosv(v.encoded_url()))+"), should be refused");
    if(w==ref::v_throw&&r!=r_invalid) mc::fail(ctx+" "+res_name(r)+", should throw invalid_part");
    mc::visit(s+"\n"+a.s(1)); mc::transitions(); mc::traces();
    mc::outcome(w==ref::v_ok?"accepted":amb?"refused (ambiguous)":"refused (grammar)");
}
static int k=mc::add_kind("call",one);
// history first, then judge the last call (state reached by modifications, not by parsing)
static void hist(mc::Args const& a)
{
    U u; if(!ref::parse(a.s(0),u)) mc::fail("harness: bad state");
    bu::url v(bv(a[0]));
    for(size_t i=1;i<a.n;++i)
    {
        call c=unpack(a[i]); size_t nx,ret; bool amb=false; U t=u;
        ref::verdict w=ref::apply(t,c,nx,&amb); if(w==ref::v_any) return;
        res r=do_call(v,c,ret); mc::transitions();
        bool judge= i+1==a.n;
#ifdef AMBIG
        if(w==ref::v_throw&&!amb) judge=judge&&(c.o==ref::o_path?(ref::path_ok(c.s,true,false)||ref::path_ok(c.s,false,true)):ref::is_segment_op(c.o)&&(c.o==ref::o_insert||c.o==ref::o_replace||ref::enc_ok(c.s,ref::c_pchar)));
#else
        if(amb) judge=false;
#endif
        if(judge)
        {
            string ctx=seq::history(a,i);
            if(w==ref::v_ok&&r!=r_ok) mc::fail(ctx+" "+res_name(r)+", should be accepted");
            if(w==ref::v_throw&&r==r_ok) mc::fail(ctx+" is accepted (result "+quote(tosv(v.encoded_url()))+"), should be refused");
            if(w==ref::v_throw&&r!=r_invalid) mc::fail(ctx+" "+res_name(r)+", should throw invalid_part");
            mc::outcome(w==ref::v_ok?"accepted":amb?"refused (ambiguous)":"refused (grammar)");
        }
        // keep model and object together; if they part, an earlier case reports it
        if((w==ref::v_ok)!=(r==r_ok)) break;
        u=t; if(tosv(v.encoded_url())!=sv(u.str())) break;
    }
    mc::visit(u.str()); mc::traces();
}
static int kh=mc::add_kind("history",hist);

void mc::setup()
{
    using namespace ref; using seq::step;
    ops::calls s0=ops::setters(0), s1=ops::setters(1), s2=ops::setters(2);
    ops::add_long("every call on states with a long component",thorough,tier(0,1),[](string const& st, ref::call const& c){ mc::run(k,st,pack(c)); });
    static const auto L=mc::lengths(2,tier(140,400),{255,256,257,511,512,513,1023,1024,1025,4096,65535,65536});
    mc::add_job("arguments of every length, good ones and ones with a flaw at either end",L.size(),[](size_t i)
    {
        size_t n=L[i]; string a(n,'a'), d(n,'1'), e, p; for(size_t j=0;j<n;++j){ e+= j%5?"b":"%4f"; p+= j%3?"c":"/"; }
        strings W={a,d,e,p,p.substr(1),a+"%",a+"%4","%"+a,"^"+a,a+"^",d+"x","x"+d,a+":",":"+a,":"+d,a+"@","/"+a,"?"+a,"?"+e+"&=","#"+e,"#"+a+"#","x://"+a,"x://u:"+a+"@h","x://"+e+":"+d,a+":"+a+"@",a+"/","[v1."+a+"]","[v1."+a,a+"//"};
        for(auto& s: ops::few_states()) for(auto& w: W) for(int o: {o_scheme,o_origin,o_authority,o_userinfo,o_userinfo_part,o_enc_user,o_enc_password,o_password_part,o_enc_host,o_port,o_port_part,o_path,o_enc_query,o_query_part,o_enc_fragment,o_fragment_part,o_insert_enc}) mc::run(k,s,pack(call(o,w)));
    });
    seq::add("every state x every call", ops::states(tier(1,2)), {step{s2,2,true}}, k);
    seq::add("every setter with spellings of what is there", ops::rich_states(), {step{s2,2,true}}, k);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{s2,1}}, k);
    seq::add("pairs of calls on the same", ops::wide_states(), {step{s0,0},step{thorough?s0:ops::brief(),0}}, k);
    seq::add("every pair of calls", ops::states(0), {step{s0,0},step{s1,1}}, kh);
    if(thorough) seq::add("every triple of calls", ops::few_states(), {step{s0,0},step{s0,0},step{s1,1}}, kh);
    static const int enc[]={o_scheme,o_origin,o_authority,o_userinfo,o_userinfo_part,o_enc_user,o_enc_password,o_password_part,o_enc_host,o_port,o_port_part,o_path,o_enc_query,o_query_part,o_enc_fragment,o_fragment_part,o_insert_enc,o_replace_enc};
#ifndef AMBIG
    mc::add_job("all byte arguments of length <=2 to every encoded setter",256,[](size_t sh)
    {
        static const strings st={"","x://u:p@h:1/a?q#f"};
        for(auto& s: st) for(int o: enc)
        {
            if(o==o_replace_enc&&s.empty()) continue;
            for(unsigned n=1;n<=2;++n) all_bytes(n,sh,[&](string const& w){ mc::run(k,s,pack(call(o,w))); });
            for(const char* pre: {"@","#","?",":","/","%","[","a","x:","x://","//","%4","[::","[v1."}) { string w=string(pre)+char(sh); mc::run(k,s,pack(call(o,w))); mc::run(k,s,pack(call(o,w+"]"))); mc::run(k,s,pack(call(o,w+"@"))); }
        }
    });
#endif
    static const strings ctxs={"","x:","//h","x://u:p@h:1/a/b?k=v#f","a/b","/a","x:a","//h/a//b","x:/.//c","//","./d:e","//1.2.3.4?#"};
    struct A { const char* alpha; int q,t; } al[]={{"a:/?#@%1.[]",4,5},{"a:/.",6,7},{"a1:@",6,7},{"a%4fg",5,6}};
    for(auto& x: al)
    {
        string n=string("argument words over ")+x.alpha;
        unsigned len=tier(x.q,x.t); strings A=mc::chars(x.alpha);
        auto Ap=std::make_shared<strings>(A);
        mc::add_job(n.c_str(), mc::word_shards(A.size()), [=](size_t sh)
        {
            mc::all_words(*Ap,len,sh,[&](string const& w){ for(auto& s: ctxs) for(int o: enc)
            {
#ifdef AMBIG
                if(o==o_enc_query||o==o_query_part||o==o_enc_fragment||o==o_fragment_part) continue;
#endif
                if(o==o_insert_enc||o==o_replace_enc){ U u; parse(s,u); size_t m=segments(u.path).size(); for(unsigned i=0;i<m+(o==o_insert_enc);++i) mc::run(k,s,pack(call(o,w,i))); }
                else mc::run(k,s,pack(call(o,w)));
            } if(mc::stopping()) return; });
        });
    }
#ifndef AMBIG
    inputs::ipv4_hosts("IPv4 octet variants as host","","",thorough,[](string const& h){ mc::run(k,"//h/p",pack(call(o_enc_host,h))); mc::run(k,"",pack(call(o_authority,h+":1"))); });
    inputs::ipv6_hosts("IPv6 arrangements as host","","",thorough,[](string const& h){ mc::run(k,"//h/p",pack(call(o_enc_host,h))); mc::run(k,"",pack(call(o_authority,"u@"+h))); });
    inputs::ipvfuture_hosts("","",thorough,[](string const& h){ mc::run(k,"x:",pack(call(o_enc_host,h))); mc::run(k,"",pack(call(o_authority,h))); });
#endif
}
