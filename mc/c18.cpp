// C18: every valid URL can be built part by part, in any order.
#include "seq.hpp"
#include <algorithm>
using namespace real;
// group 0: scheme, authority, path, query, fragment            (5! orders)
// group 1: scheme, userinfo, host, port, path, query, fragment  (7! orders)
// group 2: scheme, user, password, host, port, path, query, fragment with encoded setters (8! orders)
// group 3: as 2 with plain setters
static std::vector<call> parts(U const& t,int g)
{
    using namespace ref; std::vector<call> r; r.push_back(call(o_scheme,t.scheme));
    if(g==0) r.push_back(call(o_authority,t.auth?t.authority():string()));
    if(g==1) r.push_back(call(o_userinfo_part,t.at?t.userinfo()+"@":string()));
    if(g==2){ r.push_back(call(o_enc_user,t.user)); r.push_back(call(o_password_part,t.colon?":"+t.pass:string())); }
    if(g==3){ r.push_back(call(o_user,decode(t.user))); r.push_back(call(o_password,decode(t.pass))); }
    if(g>=1){ r.push_back(call(g==3?o_host:o_enc_host,g==3?dec_host(t):t.host)); r.push_back(call(o_port_part,t.has_port?":"+t.port:string())); }
    r.push_back(call(o_path,t.path));
    if(g==3){ r.push_back(call(o_query,decode(t.query))); r.push_back(call(o_fragment,decode(t.frag))); }
    else { r.push_back(call(o_query_part,t.has_query?"?"+t.query:string())); r.push_back(call(o_fragment_part,t.has_frag?"#"+t.frag:string())); }
    return r;
}
// can the parts of this group express the target at all?
static bool expressible(U const& t,int g)
{
    using namespace ref;
    if(t.auth&&t.authority().empty()) return false;           // "//" alone: only whole-URL or origin setters make it
    if(g>=1&&t.at&&t.userinfo().empty()) return false;        // "@" alone: only set_encoded_authority makes it
    if(g>=1&&t.colon&&!t.pass.empty()&&t.pass[0]==':') return g==1;
    if(g==2||g==3){ if(t.at&&t.user.empty()&&!t.colon) return false; }
    if(g==3){ // plain setters: canonical escapes only, no empty-but-present parts
        if((t.colon&&t.pass.empty())||(t.has_query&&t.query.empty())||(t.has_frag&&t.frag.empty())) return false;
        if(encode(decode(t.user),c_user)!=t.user||encode(decode(t.pass),c_userinfo)!=t.pass||encode(decode(t.query),c_query)!=t.query||encode(decode(t.frag),c_query)!=t.frag) return false;
        if(host_class(t.host)==h_name&&(encode(decode(t.host),c_regname)!=t.host||host_class(decode(t.host))>h_name)) return false;
    }
    return true;
}
static void order(mc::Args const& a) // start, target, group, permutation as bytes
{
    U t,m; if(!ref::parse(a.s(1),t)||!ref::parse(a.s(0),m)) mc::fail("harness");
    int g=int(a.num(2)); std::vector<call> ps=parts(t,g);
    bu::url v(bv(a[0])); string ctx="url("+quote(a[0])+")"; size_t nx,ret;
    for(char i: a[3])
    {
        call const& c=ps[(int)i]; ctx+="."+describe(c);
        ref::verdict w=ref::apply(m,c,nx);
        if(w!=ref::v_ok){ mc::outcome("order passes through an ambiguous state"); return; }
        res r=do_call(v,c,ret); mc::transitions();
        if(r!=r_ok) mc::fail(ctx+" "+res_name(r)+" while building "+quote(a[1]));
    }
    string want=t.str();
    if(m.str()!=want) mc::fail("harness: the model builds "+quote(m.str())+" ["+ctx+"]");
    MC_EQ("the URL built part by part",v.encoded_url(),want);
    cmp_both(v,t,ctx,w_all,false);
    mc::traces(); mc::outcome("built");
}
static int k=mc::add_kind("order",order);
// clearing user and password one by one keeps the "//": to drop an authority, clear the userinfo as a whole
static bool reachable(string const& start,U const& t,int g){ U s; ref::parse(start,s); return !(g>=2&&!t.auth&&s.auth); }
static void all_orders(string const& start,string const& target,int g)
{
    U t; if(!ref::parse(target,t)||!expressible(t,g)||!reachable(start,t,g)) return; mc::visit(start+"\n"+target+"\n"+std::to_string(g));
    size_t n=parts(t,g).size(); string p; for(size_t i=0;i<n;++i) p.push_back(char(i));
    do { mc::run(k,start,target,std::to_string(g),p); if(mc::stopping()) return; } while(std::next_permutation(p.begin(),p.end()));
}
// mid-size: all rotations and their reversals instead of all orders (used for the big target sets)
static void some_orders(string const& start,string const& target,int g)
{
    U t; if(!ref::parse(target,t)||!expressible(t,g)||!reachable(start,t,g)) return; mc::visit(start+"\n"+target+"\n"+std::to_string(g));
    size_t n=parts(t,g).size(); for(size_t r=0;r<n;++r) for(size_t st: {size_t(1),n-1}) { string p; for(size_t i=0;i<n;++i) p.push_back(char((r+i*st)%n)); mc::run(k,start,target,std::to_string(g),p); }
}
void mc::setup()
{
    mc::format_arg=[](size_t i,sv s){ if(i!=3) return quote(s); string r="order"; for(char c: s) r+=" "+std::to_string(int(c)); return r; };
    strings st=ops::states(tier(1,2)), few=ops::few_states(), small=ops::states(0); auto sp=std::make_shared<strings>(st), fp=std::make_shared<strings>(few), mp=std::make_shared<strings>(small);
    mc::add_job("all 5! orders of whole components, every target, from empty",st.size(),[sp](size_t i){ all_orders("",(*sp)[i],0); });
    mc::add_job("all 5! orders over every selected start",small.size(),[mp,fp](size_t i){ for(auto& s: *fp) all_orders(s,(*mp)[i],0); });
    mc::add_job("rotations of finer components, every target",st.size(),[sp](size_t i){ for(int g=1;g<4;++g){ some_orders("",(*sp)[i],g); some_orders("x://u:p@h:1/a/b?k=v#f",(*sp)[i],g); some_orders("a/b",(*sp)[i],g); } });
    static const strings rich=ops::rich_states();
    mc::add_job("targets with values worth encoding",rich.size(),[](size_t i){ for(string s: {string(""),string("x://u:p@h:1/a/b?k=v#f"),rich[(i+1)%rich.size()]}) { all_orders(s,rich[i],0); for(int g=1;g<4;++g) some_orders(s,rich[i],g); } });
    static const auto L=mc::lengths(1,tier(20,140),{31,32,33,63,64,65,127,128,255,256,257,1024,4096,65536});
    mc::add_job("targets with a long component",L.size()*10,[](size_t sh){ string t=ops::long_states(L[sh/10])[sh%10]; for(string s: {string(""),string("x://u:p@h:1/a/b?k=v#f"),ops::long_states(L[sh/10])[(sh+3)%10]}) for(int g=0;g<4;++g) some_orders(s,t,g); });
    static const strings full={"x://u:p@h:1/a/b?k=v#f","//h","x:/a?q","a/b#f","//u@1.2.3.4/","mailto:b%20c","//:8","//u:p@"};
    mc::add_job("all 7! orders",full.size()*2,[](size_t i){ all_orders(i%2?"y://w:x@[::1]:2/c//d?e&f=g#h":"",full[i/2],1); });
    mc::add_job("all 8! orders",full.size()*2,[](size_t i){ if(!thorough&&(i/2)%3) return; all_orders(i%2?"y://w:x@[::1]:2/c//d?e&f=g#h":"",full[i/2],2); });
    mc::add_job("all 8! orders, plain setters",full.size()*2,[](size_t i){ if(!thorough&&(i/2)%4) return; all_orders(i%2?"//w@1.2.3.4":"",full[i/2],3); });
}
