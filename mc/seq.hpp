// Histories: a case is an initial URL and a sequence of packed calls, executed on one object.
#ifndef MC_SEQ_HPP
#define MC_SEQ_HPP
#include "real.hpp"
#include "ops.hpp"
namespace seq {
using namespace real;
inline string history(mc::Args const& a, size_t upto)
{
    string d="url("+quote(a[0])+")";
    for(size_t i=1;i<a.n&&i<=upto;++i) d+="."+describe(unpack(a[i]));
    return d;
}
inline string fmt(size_t i, sv s){ return i==0||s.size()<pack_size||(unsigned char)s[0]>=32?quote(s):describe(unpack(s)); }
static const bool fmt_set=(mc::format_arg=fmt,true);
// Enumerates all histories of exactly `depth` calls that the model can follow:
// every state reached by the model contributes its own segment edits. f(prefix args, ...) is
// called for complete histories only; `sets[k]` is the setter alphabet of step k.
typedef std::function<void(string const& init, std::vector<string> const& packed)> hsink;
struct step { ops::calls fixed; int seglevel; bool derived=false; }; // derived: also calls made from the state's own text
inline ops::calls alphabet(U const& u, step const& s)
{
    ops::calls cs= s.seglevel>=0 ? ops::all(u,s.fixed,s.seglevel) : s.fixed;
    if(s.derived) for(auto& c: ops::derived(u)) cs.push_back(c);
    return cs;
}
inline void expand(U const& u, string const& init, std::vector<step> const& al, std::vector<string>& p, hsink const& f)
{
    if(p.size()==al.size()){ f(init,p); return; }
    step const& s=al[p.size()];
    ops::calls cs=alphabet(u,s);
    for(auto& c: cs)
    {
        U t=u; size_t nx;
        ref::verdict v=ref::apply(t,c,nx);
        if(v==ref::v_any) continue;
        p.push_back(pack(c));
        expand(t,init,al,p,f);
        p.pop_back();
        if(mc::stopping()) return;
    }
}
inline void run_history(int kind, string const& init, std::vector<string> const& p)
{
    mc::Args a; a.a[a.n++]=init; for(auto& s: p) a.a[a.n++]=s; mc::run_case(kind,a);
}
// one shard per initial state x first call
inline void add(const char* name, strings inits, std::vector<step> al, int kind)
{
    auto in=std::make_shared<strings>(inits); auto A=std::make_shared<std::vector<step>>(al);
    // shards: (initial state, slice of the first alphabet)
    const size_t slices=8;
    mc::add_job(name,inits.size()*slices,[=](size_t sh)
    {
        string const& i=(*in)[sh/slices]; size_t sl=sh%slices; U u; if(!ref::parse(i,u)) mc::fail("bad initial state "+i);
        step const& s=(*A)[0];
        ops::calls cs=alphabet(u,s);
        for(size_t k=sl;k<cs.size();k+=slices)
        {
            U t=u; size_t nx; if(ref::apply(t,cs[k],nx)==ref::v_any) continue;
            std::vector<string> p(1,pack(cs[k]));
            expand(t,i,*A,p,[&](string const& a,std::vector<string> const& b){ run_history(kind,a,b); });
            if(mc::stopping()) return;
        }
    });
}
// (c1 c2)^11 for every pair of calls of the alphabet (period 2), (c1 c2 c3)^7 (period 3), from
// every given state: what only shows after many calls on one object. Positions are clipped to
// the list the model has at that moment.
inline void add_periodic(const char* name, strings inits, ops::calls fixed, int seglevel, unsigned period, int kind)
{
    auto in=std::make_shared<strings>(inits); auto F=std::make_shared<ops::calls>(fixed); const size_t slices=64;
    mc::add_job(name,inits.size()*slices,[=](size_t sh)
    {
        string const& st=(*in)[sh/slices]; U u0; if(!ref::parse(st,u0)) mc::fail("bad initial state "+st);
        ops::calls al=*F; if(seglevel>=0) for(auto& c: ops::edits(2,seglevel)) al.push_back(c);
        for(size_t k=sh%slices;k<al.size();k+=slices)
        {
            std::vector<unsigned> v(1,unsigned(k));
            mc::all_seq(unsigned(al.size()),period,v,[&](std::vector<unsigned> const& x)
            {
                U u=u0; std::vector<string> p;
                for(size_t i=0;i<22/period*period;++i)
                {
                    call c=al[x[i%period]];
                    if(ref::is_segment_op(c.o))
                    {
                        unsigned n=unsigned(ref::segments(u.path).size()); bool ins=c.o==ref::o_insert||c.o==ref::o_insert_enc, range=c.o==ref::o_erase_range;
                        if(!ins&&!range&&n==0) continue;
                        if(c.i>n) c.i=n; if(!ins&&!range&&c.i==n) c.i=n-1; if(range){ if(c.j>n) c.j=n; if(c.j<c.i) c.j=c.i; }
                    }
                    size_t nx; if(ref::apply(u,c,nx)==ref::v_any) continue;
                    p.push_back(pack(c));
                }
                if(!p.empty()) run_history(kind,st,p);
            });
            if(mc::stopping()) return;
        }
    });
}
} // seq
#endif
