// C10: editing segments behaves like editing a list of strings.
#include "seq.hpp"
using namespace real;
static void hist(mc::Args const& a) // state, packed edits
{
    U u; if(!ref::parse(a.s(0),u)) mc::fail("harness: bad state");
    for(int back=0;back<2;++back)
    {
        U m=u; bu::url v(bv(a[0]));
        for(size_t i=1;i<a.n;++i)
        {
            call c=unpack(a[i]); size_t nx=0,ret=0; U before=m;
            ref::verdict w=ref::apply(m,c,nx); if(w==ref::v_any) return;
            res r=do_call(v,c,ret,back!=0); mc::transitions();
            string ctx=seq::history(a,i)+(back?" (positions counted from end())":"");
            if(!ref::is_segment_op(c.o)){ if((r==r_ok)!=(w==ref::v_ok)||tosv(v.encoded_url())!=sv(m.str())) return; continue; } // not this property's call
            if(w==ref::v_throw){ MC_TRUE(string("the edit ")+res_name(r)+", list model refuses it",r==r_invalid); cmp_both(v,before,ctx,w_str|w_seg|w_par|w_type|w_dec,false); mc::outcome("refused"); continue; }
            MC_TRUE(string("the edit ")+res_name(r),r==r_ok);
            cmp_both(v,m,ctx,w_str|w_type|w_par|w_dec,false);
            cmp_seg(v,m,ctx,i+1==a.n&&a.n==2);
            MC_NUM("position of the returned iterator",ret,nx);
            mc::outcome(c.o==ref::o_insert||c.o==ref::o_insert_enc?"inserted":c.o==ref::o_replace||c.o==ref::o_replace_enc?"replaced":"erased");
        }
        if(!back) mc::visit(m.str());
    }
    mc::traces();
}
// chain: every edit uses the iterator the previous one returned
static void chain(mc::Args const& a) // state, position, ops string over i I r R e
{
    U u; ref::parse(a.s(0),u); ref::strings l=ref::segments(u.path); bool rooted=u.path.empty()||u.path[0]=='/';
    (void)rooted;
    bu::url v(bv(a[0])); auto sg=v.segments(); size_t pos=size_t(a.num(1)); auto it=sg.begin(); for(size_t i=0;i<pos;++i) ++it;
    U m=u; string log="url("+quote(a[0])+") at "+std::to_string(pos);
    for(size_t i=0;i<a[2].size();++i)
    {
        char o=a[2][i]; call c; size_t n=ref::segments(m.path).size(), nx=0; U before=m;
        if(pos>n) mc::fail("harness: position");
        if((o=='r'||o=='R'||o=='e')&&pos==n) return;
        switch(o){ case 'i': c=call(ref::o_insert,"s t",unsigned(pos)); break; case 'I': c=call(ref::o_insert_enc,"%41",unsigned(pos)); break; case 'r': c=call(ref::o_replace,"u",unsigned(pos)); break; case 'R': c=call(ref::o_replace_enc,"vwxyz",unsigned(pos)); break; case 'z': c=call(ref::o_insert,"",unsigned(pos)); break; default: c=call(ref::o_erase,"",unsigned(pos)); }
        ref::verdict w=ref::apply(m,c,nx); log+=" "+string(ref::op_name(c.o)); string ctx=log;
        try
        {
            switch(o){ case 'i': it=sg.insert(it,bv(c.s)); break; case 'I': it=sg.insert_encoded(it,bv(c.s)); break; case 'r': it=sg.replace(it,bv(c.s)); break; case 'R': it=sg.replace_encoded(it,bv(c.s)); break; case 'z': it=sg.insert(it,bv(c.s)); break; default: it=sg.erase(it); }
            MC_TRUE("accepted, list model refuses it",w==ref::v_ok); pos=nx;
        }
        catch(bu::invalid_part const&){ MC_TRUE("threw invalid_part, list model accepts it",w==ref::v_throw); m=before; return; }
        mc::transitions();
        cmp_both(v,m,ctx,w_str|w_seg,false);
        ref::strings now=ref::segments(m.path);
        if(pos<now.size()) cmp_seg1(it,now[pos],true,ctx); else MC_TRUE("returned iterator is not end()",it==v.segments().end());
    }
    mc::visit(m.str()); mc::traces(); mc::outcome("chain of edits");
}
static int kh=mc::add_kind("edits",hist), kc=mc::add_kind("chain",chain);
void mc::setup()
{
    using seq::step;
    // paths: all lists of up to 3 (4) segments, rooted and not, in every context
    strings segs={"","a","b:c",".","%2f"}, pre={"","x:","//h","x://u:p@h:1"}, post={"","?k=v/w#f/g"}; strings st;
    for(auto& p: pre) for(auto& q: post) for(int rooted=0;rooted<2;++rooted) for(unsigned n=0;n<=unsigned(tier(3,5));++n)
    {
        std::vector<unsigned> v;
        mc::all_seq(unsigned(segs.size()),n,v,[&](std::vector<unsigned> const& x){ string path; for(size_t i=0;i<x.size();++i) path+=(i||rooted?"/":"")+segs[x[i]]; string s=p+path+q; U u; if(ref::parse(s,u)&&u.path==path&&u.str()==s) st.push_back(s); });
    }
    seq::add("every list x every edit", st, {step{{},2}}, kh);
    strings few={"","a","/a","x:","x:a/b","//h","//h/a","x://h/a/b/c?q#f","a/b/c","/.//a","./b:c","x:b:c/d","//h//","?q","x:/a//b","/a/b/c/d"};
    seq::add("every setter with spellings of what is there", ops::rich_states(), {step{{},2,true}}, kh);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{{},1}}, kh);
    seq::add_periodic("every pair of calls repeated eleven times", {"","x://u:p@h:1/a/b?k=v#f","a/b","//[::1]/?#","x:/.//y"}, ops::setters(0), 0, 2, kh);
    seq::add("every pair of edits", few, {step{{},2},step{{},2}}, kh);
    seq::add("every triple of edits", few, {step{{},tier(0,1)},step{{},0},step{{},1}}, kh);
    seq::add("an edit, a setter, an edit", few, {step{{},0},step{ops::setters(0),-1},step{{},1}}, kh);
    seq::add("every pair of edits of every short list", ops::states(0), {step{{},0},step{{},1}}, kh);
    seq::add("a setter, then an edit", ops::few_states(), {step{ops::setters(1),-1},step{{},1}}, kh);
    if(thorough) seq::add("four edits", {"","a","//h/a","x:a/b"}, {step{{},0},step{{},0},step{{},0},step{{},0}}, kh);
    mc::add_job("chained iterators",few.size(),[few](size_t i){ U u; ref::parse(few[i],u); size_t n=ref::segments(u.path).size(); string al="iIrRze";
        for(size_t p=0;p<=n;++p) for(unsigned len=1;len<=unsigned(tier(4,7));++len){ std::vector<unsigned> v; mc::all_seq(6,len,v,[&](std::vector<unsigned> const& x){ string o; for(auto y: x) o.push_back(al[y]); mc::run(kc,few[i],std::to_string(p),o); }); } });
    ops::add_words("every edit with every argument word",{"","a","/a","x:a/b","//h","x://h/a/b/c?q#f","a/b/c","/.//a"},tier(2,3),true,[](string const& st, ref::call const& c){ seq::run_history(kh,st,{pack(c)}); });
    static const auto L=mc::lengths(1,tier(270,600),{1000,5000,32768,65535,65536});
    mc::add_job("long segments and long lists",L.size(),[](size_t i){ string w(L[i],'w'), e(L[i],' '), big; for(size_t k=0;k<L[i];++k) big+="/s"; for(string s: {string(""),string("a/b"),string("//h/a/b?q"),"//h"+big+"#f",big.substr(1)}) { U u; ref::parse(s,u); unsigned n=unsigned(ref::segments(u.path).size()); for(unsigned p: {0u,1u,n/2,n}) if(p<=n) { using namespace ref; seq::run_history(kh,s,{pack(call(o_insert,e,p))}); seq::run_history(kh,s,{pack(call(o_insert_enc,w,p))}); if(p<n){ seq::run_history(kh,s,{pack(call(o_replace,e,p))}); seq::run_history(kh,s,{pack(call(o_replace_enc,w,p)),pack(call(o_erase,"",p))}); seq::run_history(kh,s,{pack(call(o_erase_range,"",p,n))}); seq::run_history(kh,s,{pack(call(o_erase_range,"",p,p+(n-p)/2))}); } } } });
}
