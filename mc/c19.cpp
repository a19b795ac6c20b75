// C19: normalising lower-cases the scheme and nothing else.
#include "seq.hpp"
#include "inputs.hpp"
using namespace real;
static void norm(mc::Args const& a) // url, packed calls before
{
    for(int which=0;which<2;++which)
    {
        trk().reset();
        {
            turl v(bv(a[0]),talloc<char>(1)); size_t ret;
            for(size_t i=1;i<a.n;++i){ call c=unpack(a[i]); if(ref::is_segment_op(c.o)){ size_t n=v.segments().size(); if(c.i>n||c.j>n) return; } do_call(v,c,ret); }
            string before(tosv(v.encoded_url())), ctx=seq::history(a,a.n)+(which?".normalize_scheme()":".normalize()"); U u; if(!ref::parse(before,u)) return;
            string low=before; for(size_t i=0;i<u.scheme.size();++i) if(low[i]>='A'&&low[i]<='Z') low[i]+=32;
            for(auto& c: u.scheme) if(c>='A'&&c<='Z') c+=32;
            size_t al=trk().allocs, cap=v.capacity(); char const* p=v.data();
            for(int rep=0;rep<2;++rep) // twice: idempotent
            {
                trk().fail_at=0; // would throw if it allocated
                bool threw=false; try { if(which) v.normalize_scheme(); else v.normalize(); } catch(...){ threw=true; } trk().fail_at=-1;
                MC_TRUE("normalising throws",!threw); MC_EQ("URL",v.encoded_url(),low); cmp_both(v,u,ctx,w_all,false);
                MC_TRUE("normalising allocates",trk().allocs==al&&v.data()==p&&v.capacity()==cap); mc::transitions();
            }
            mc::visit(before); mc::outcome(low==before?"already lower-case":"lower-cased");
        }
        trk().check();
    }
    mc::traces();
}
static int k=mc::add_kind("normalize",norm);
void mc::setup()
{
    auto f=[](string const& s){ U u; if(ref::parse(s,u)) mc::run(k,s); };
    strings rest={"","//H:8/P?Q#F","//%aA@A.B/%bB?%cC#%dD","//[::FFFF]","//[V1.X]/","/A","A","?A","#A","//U:P@h"}; auto rp=std::make_shared<strings>(rest);
    inputs::words("scheme words",chars("aAzZ[@`{0+-."),tier(4,6),[rp](string const& s){ U u; for(auto& r: *rp){ string x=s+":"+r; if(ref::parse(x,u)) mc::run(k,x); } });
    mc::add_job("every scheme character in every position",256,[rp](size_t b){ string c(1,char(b)); U u; for(auto& s: {c,"a"+c,"A"+c+"B",c+"z","abcdefgh"+c+"ABCDEFGH"+c}) for(auto& r: *rp){ string x=s+":"+r; if(ref::parse(x,u)) mc::run(k,x); x=s+r; if(ref::parse(x,u)) mc::run(k,x); } });
    static const auto L=mc::lengths(1,tier(270,600),{1000,65536}); mc::add_job("schemes of every length",L.size(),[rp](size_t i){ for(auto& r: *rp){ string s(L[i],'Q'); mc::run(k,s+":"+r); string m; for(size_t n=0;n<L[i];++n) m.push_back("aB9+-."[n?n%6:0]); mc::run(k,m+":"+r); } });
    inputs::words("words without and with schemes",chars("A:/?#@%4.B"),tier(5,7),f);
    strings st=ops::states(2); auto sp=std::make_shared<strings>(st);
    mc::add_job("all URL states, original and upper-cased scheme",16,[sp](size_t sh){ for(size_t i=sh;i<sp->size();i+=16){ string s=(*sp)[i]; mc::run(k,s); if(s.substr(0,2)=="x:"){ s[0]='X'; mc::run(k,s); } } });
    using seq::step; ops::calls s1=ops::setters(1); ops::add(s1,ref::o_scheme,{"ABC","Z9"});
    seq::add("after one call", ops::few_states(), {step{s1,1}}, k);
    seq::add("after every setter with spellings of what is there", ops::rich_states(), {step{s1,1,true}}, k);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{ops::setters(0),0}}, k);
    ops::add_long("after a call on states with a long component",thorough,0,[](string const& st, ref::call const& c){ seq::run_history(k,st,{pack(c)}); });
    seq::add("after two calls", ops::few_states(), {step{s1,0},step{s1,0}}, k);
}
