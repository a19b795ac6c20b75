// C06: after any history the string is a valid URL and every observer equals that of a re-parse.
// The oracle is the RFC reference parse of the object's own string (not the operation model).
#include "seq.hpp"
using namespace real;
static void self_check(bu::url& v, string const& ctx, bool deep)
{
    string s(tosv(v.encoded_url())); U u;
    MC_TRUE("encoded_url() is not a valid URL: "+quote(s),ref::parse(s,u));
    cmp_both(v,u,ctx,w_all,deep);
    if(deep)
    {
        bu::url_view w(bv(s)); cmp(w,u,ctx+" re-parsed",w_all,false);
    }
}
static void hist(mc::Args const& a)
{
    bu::url v(bv(a[0]));
    for(size_t i=1;i<a.n;++i)
    {
        call c=unpack(a[i]); size_t ret=0;
        // the model chose positions from its own state: stay inside the real list
        if(ref::is_segment_op(c.o))
        {
            size_t n=v.segments().size(); bool ins=c.o==ref::o_insert||c.o==ref::o_insert_enc;
            if(c.i>n||(c.i==n&&!ins&&c.o!=ref::o_erase_range)||(c.o==ref::o_erase_range&&c.j>n)) break;
        }
        res r=do_call(v,c,ret);
        mc::transitions();
        mc::outcome(r==r_ok?"succeeded":r==r_invalid?"threw invalid_part":"threw something else");
        if(i+1==a.n||i==1) self_check(v,seq::history(a,i),i+1==a.n&&a.n<=3);
    }
    mc::visit(tosv(v.encoded_url()));
    mc::traces();
}
static int k=mc::add_kind("history",hist);
void mc::setup()
{
    using seq::step;
    ops::add_long("every call on states with a long component",thorough,tier(0,1),[](string const& st, ref::call const& c){ seq::run_history(k,st,{pack(c)}); });
    ops::calls s0=ops::setters(0), s1=ops::setters(1), s2=ops::setters(2);
    seq::add("every state x every call", ops::states(tier(1,2)), {step{s2,2,true}}, k);
    seq::add("every pair of calls", ops::states(tier(0,1)), {step{s0,0},step{thorough?s1:s0,0}}, k);
    seq::add("every setter with spellings of what is there", ops::rich_states(), {step{s2,2,true}}, k);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{s2,1}}, k);
    seq::add("pairs of calls on the same", ops::wide_states(), {step{s0,-1},step{thorough?s0:ops::brief(),0}}, k);
    seq::add_periodic("every pair of calls repeated eleven times", {"","x://u:p@h:1/a/b?k=v#f","a/b","//[::1]/?#","x:/.//y"}, ops::setters(0), 0, 2, k);
    seq::add("the same after one call", ops::rich_states(), {step{s0,0},step{{},-1,true}}, k);
    seq::add("every triple of calls from selected states", ops::few_states(), {step{s0,0},step{s0,0},step{thorough?s1:s0,0}}, k);
    ops::calls t; ops::add(t,ref::o_url,{""}); ops::add(t,ref::o_scheme,{"","x"}); ops::add(t,ref::o_authority,{"","u:p@h:1"}); ops::add(t,ref::o_userinfo,{""}); ops::add(t,ref::o_enc_host,{"","1.2.3.4"});
    ops::add(t,ref::o_path,{"","/a/b","c"}); ops::add(t,ref::o_enc_query,{"","k=v&l"}); ops::add(t,ref::o_fragment_part,{"","#"}); ops::add(t,ref::o_port_part,{"",":"}); ops::add(t,ref::o_user,{"","@"}); ops::add(t,ref::o_password,{"","p"});
    seq::add_periodic("every triple of calls repeated seven times", {"","x://u:p@h:1/a/b?k=v#f"}, t, 0, 3, k);
    seq::add("every sequence of four calls over a reduced alphabet", {"","x://u:p@h:1/a/b?k=v#f","a/b"}, {step{t,0},step{t,-1},step{t,0},step{t,thorough?0:-1}}, k);
    if(thorough) seq::add("every sequence of five setters over a reduced alphabet", {"","x://u:p@h:1/a/b?k=v#f","a/b"}, {step{t,-1},step{t,-1},step{t,-1},step{t,-1},step{t,-1}}, k);
}
