// C05: a successful setter changes its component as documented and nothing else.
// Every state of the product domain x every setter x every argument, and every pair of
// setters on the same object; resulting string and every component against the model.
#include "seq.hpp"
#include "inputs.hpp"
using namespace real;
static void hist(mc::Args const& a)
{
    U u; if(!ref::parse(a.s(0),u)) mc::fail("harness: bad initial state");
    bu::url v(bv(a[0]));
    for(size_t i=1;i<a.n;++i)
    {
        call c=unpack(a[i]); size_t nx=0,ret=0; U before=u;
        ref::verdict w=ref::apply(u,c,nx);
        res r=do_call(v,c,ret);
        mc::transitions();
        if(r==r_ok && w==ref::v_ok)
        {
            bool last=i+1==a.n; string ctx=seq::history(a,i);
            cmp_both(v,u,ctx, last? w_str|w_dec|w_type|w_seg|w_par : w_str, false);
            mc::outcome(before.str()==u.str()?"succeeded, URL unchanged":"succeeded, URL changed");
        }
        else if(r==r_ok){ mc::outcome("accepted where the model refuses (C08/C20)"); break; }
        else { mc::outcome("refused"); if(w==ref::v_ok) mc::fail(string("the call ")+res_name(r)+" though the argument is valid and the result unambiguous ["+seq::history(a,i)+"]"); }
        mc::visit(u.str());
    }
    mc::traces();
}
static int k=mc::add_kind("setters",hist);
void mc::setup()
{
    using seq::step;
    ops::add_long("every call on states with a long component",thorough,tier(0,1),[](string const& st, ref::call const& c){ seq::run_history(k,st,{pack(c)}); });
    ops::calls s0=ops::setters(0), s1=ops::setters(1), s2=ops::setters(2);
    seq::add("every state x every setter call", ops::states(tier(1,2)), {step{s2,-1,true}}, k);
    seq::add("every pair of setter calls", ops::states(tier(0,1)), {step{thorough?s1:s0,-1},step{s1,-1}}, k);
    seq::add("every setter with spellings of what is there", ops::rich_states(), {step{s2,1,true}}, k);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{s2,0}}, k);
    seq::add("pairs of calls on the same", ops::wide_states(), {step{s0,0},step{thorough?s0:ops::brief(),-1}}, k);
    if(thorough) seq::add("every sequence of four calls over a reduced alphabet", ops::few_states(), {step{ops::brief(),0},step{ops::brief(),-1},step{ops::brief(),0},step{ops::brief(),-1}}, k);
    seq::add_periodic("every pair of calls repeated eleven times", {"","x://u:p@h:1/a/b?k=v#f","a/b","//[::1]/?#","x:/.//y"}, ops::setters(0), 0, 2, k);
    seq::add("the same after one call", ops::rich_states(), {step{s0,0},step{{},-1,true}}, k);
    seq::add("every triple of setter calls from selected states", ops::few_states(), {step{thorough?s1:s0,-1},step{thorough?s1:s0,-1},step{s0,-1}}, k);
    seq::add("segment edits then setters", ops::few_states(), {step{{},1},step{s1,-1}}, k);
    ops::add_words("every setter with every argument word",{"","a/b","x:/a","//u:p@h:1/c?k=v#f","x://[::1]/"},tier(2,3),false,[](string const& st, ref::call const& c){ seq::run_history(k,st,{pack(c)}); });
    ops::add_words("every segment edit with every argument word",{"","a/b?q","x:c","//h/a/b#f"},tier(2,3),true,[](string const& st, ref::call const& c){ seq::run_history(k,st,{pack(c)}); });
    // long values around the growth points of the storage
    static const auto L=mc::lengths(1,tier(270,600),{1000,1023,1024,4096,65536});
    mc::add_job("arguments of every length",L.size(),[](size_t i)
    {
        string a(L[i],'a'), d(L[i],'1'); string e; for(size_t n=0;n<L[i];++n) e.push_back(n%7?'b':' ');
        for(auto& st: ops::few_states()) for(int o: {ref::o_scheme,ref::o_authority,ref::o_userinfo,ref::o_user,ref::o_enc_user,ref::o_password,ref::o_enc_password,ref::o_host,ref::o_enc_host,ref::o_port,ref::o_query,ref::o_enc_query,ref::o_fragment,ref::o_enc_fragment,ref::o_path})
        {
            bool plain=o==ref::o_user||o==ref::o_password||o==ref::o_host||o==ref::o_query||o==ref::o_fragment;
            string v= o==ref::o_port?d: plain?e: o==ref::o_path?"/"+a:a;
            seq::run_history(k,st,{pack(call(o,v))});
            seq::run_history(k,st,{pack(call(o,v)),pack(call(o,"")),pack(call(o,v))});
        }
    });
}
