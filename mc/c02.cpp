// C02: every encoded observer of url_view and url equals the RFC component.
#include "real.hpp"
#include "inputs.hpp"
#include "ops.hpp"
using namespace real;
static void obs_case(mc::Args const& a)
{
    string s=a.s(0); U u;
    if(!ref::parse(s,u)) return;
    if(u.str()!=s) mc::fail("reference model: components do not add up"); // model self-check
    string ctx="url_view("+quote(s)+")";
    bu::url_view v(bv(a[0]));
    cmp(v,u,ctx,w_str);
    ctx="url("+quote(s)+")";
    bu::url w(bv(a[0]));
    cmp(w,u,ctx,w_str);
    // the pieces concatenate back to the input
    string j=string(tosv(v.encoded_origin()))+string(tosv(v.encoded_path()))+string(tosv(v.query_part()))+string(tosv(v.fragment_part()));
    MC_EQ("origin+path+query_part+fragment_part",j,s);
    if(v.has_authority()){ string k=string(tosv(w.userinfo_part()))+string(tosv(w.encoded_host()))+string(tosv(w.port_part())); MC_EQ("userinfo_part+host+port_part",k,u.authority()); }
    mc::visit(s); mc::transitions(2*20); mc::traces();
    mc::outcome(u.auth?(u.at?"authority with userinfo":"authority"):(u.has_scheme?"no authority, scheme":"no authority, no scheme"));
}
static int k=mc::add_kind("observe",obs_case);
// one component of n characters (too long to be written into the case: built from its length)
static void huge(mc::Args const& a)
{
    string s=ops::long_states(size_t(a.num(0)))[size_t(a.num(1))]; U u; if(!ref::parse(s,u)) mc::fail("harness: bad huge state");
    string ctx="URL with a component of "+a.s(0)+" characters, shape "+a.s(1);
    { bu::url_view v{bv(s)}; cmp(v,u,ctx,w_str); }
    { bu::url w{bv(s)}; cmp(w,u,ctx,w_str); }
    mc::states(); mc::transitions(2*20); mc::traces(); mc::outcome("huge component");
}
static int kg=mc::add_kind("huge",huge);
void mc::setup()
{
    // invalid strings are C01's business: only valid ones become cases
    auto f=[](string const& s){ U u; if(ref::parse(s,u)) mc::run(k,s); };
    inputs::add_all(f,1);
    inputs::add_valid(f);
    static const std::vector<size_t> H={1u<<20,(1u<<20)+1,(1u<<24)-1,(1u<<24)+3};
    mc::add_job("components of 2^20 and 2^24 characters",H.size()*10,[](size_t i){ mc::run(kg,std::to_string(H[i/10]),std::to_string(i%10)); });
}
