// C09: segments() lists exactly the path's segments.  C11 (-DPARAMS): params() likewise.
#include "seq.hpp"
#include "inputs.hpp"
using namespace real;
#ifdef PARAMS
enum { what=w_par };
#else
enum { what=w_seg };
#endif
static void parsed(mc::Args const& a)
{
    string s=a.s(0), ctx=quote(s); U u; if(!ref::parse(s,u)) return;
    bu::url_view v(bv(a[0])); cmp(v,u,"url_view("+ctx+")",what,true);
    bu::url w(bv(a[0])); cmp_both(w,u,"url("+ctx+")",what,true);
#ifdef PARAMS
    size_t n=ref::params(u).size();
    MC_NUM("params_type(url_view).size()",bu::url_view::params_type(v).size(),n);
#else
    size_t n=ref::segments(u.path).size();
    MC_NUM("segments_type(url_view).size()",bu::url_view::segments_type(v).size(),n);
#endif
    mc::visit(s); mc::transitions(6*(n+1)); mc::traces();
    mc::outcome(n==0?"0 elements":n==1?"1 element":n==2?"2 elements":n==3?"3 elements":"4 or more elements");
}
static void hist(mc::Args const& a)
{
    bu::url v(bv(a[0]));
    for(size_t i=1;i<a.n;++i)
    {
        call c=unpack(a[i]); size_t ret=0;
        if(ref::is_segment_op(c.o)){ size_t n=v.segments().size(); bool ins=c.o==ref::o_insert||c.o==ref::o_insert_enc; if(c.i>n||(c.i==n&&!ins&&c.o!=ref::o_erase_range)||(c.o==ref::o_erase_range&&c.j>n)) break; }
        do_call(v,c,ret); mc::transitions();
        // the list is that of the path (query) the object itself reports
        U u; string ctx=seq::history(a,i);
#ifdef PARAMS
        sv q=tosv(v.query_part()); u.has_query=!q.empty(); if(u.has_query) u.query=string(q.substr(1));
#else
        u.path=string(tosv(v.encoded_path()));
#endif
        cmp_both(v,u,ctx,what,i+1==a.n);
    }
    mc::visit(tosv(v.encoded_url())); mc::traces();
}
// views that are not attached to a URL are empty; copies of views and iterators are interchangeable
static void detached(mc::Args const& a)
{
    string ctx=quote(a[0]); (void)ctx; U u; ref::parse(a.s(0),u);
    bu::url w(bv(a[0])); bu::url_view v(bv(a[0]));
#ifdef PARAMS
    bu::url::params_type d; bu::url_view::params_type dv;
    auto l=w.params(); auto lv=v.params(); 
#else
    bu::url::segments_type d; bu::url_view::segments_type dv;
    auto l=w.segments(); auto lv=v.segments();
#endif
    MC_NUM("size() of a default-constructed list",d.size()+dv.size(),0); MC_TRUE("empty() of a default-constructed list",d.empty()&&dv.empty());
    MC_TRUE("begin()==end() of a default-constructed list",d.begin()==d.end()&&dv.begin()==dv.end());
    d=l; dv=lv; MC_NUM("size() of an assigned list",d.size(),l.size()); MC_NUM("size() of an assigned list (view)",dv.size(),lv.size());
    MC_TRUE("copies of a list give equal iterators",d.begin()==l.begin()&&d.end()==l.end());
    auto it=d.begin(), jt=l.begin(); auto iv=dv.begin(); size_t n=0;
    for(;it!=d.end();++it,++jt,++iv,++n) { MC_TRUE("iterators of copies differ",it==jt); auto c=it; it=c; }
    MC_NUM("elements of an assigned list",n,l.size()); MC_TRUE("view list ends with it",iv==dv.end());
    mc::transitions(n+4); mc::traces(); mc::visit("detached"+a.s(0));
}
static int kd=mc::add_kind("detached",detached);
static int kp=mc::add_kind("list",parsed), kh=mc::add_kind("history",hist);
void mc::setup()
{
    auto f=[](string const& s){ U u; if(ref::parse(s,u)) mc::run(kp,s); };
    using seq::step;
    inputs::add_valid(f);
    mc::add_job("detached and copied lists",1,[](size_t){ for(auto& s: ops::states(1)) mc::run(kd,s); });
#ifdef PARAMS
    inputs::framed("query words","?",chars("k=&/?"),tier(8,10),"",f);
    inputs::framed("query words in a full URL","x://u@h:1/p?",{"k","=","&","%3d","%26","v"},tier(6,8),"#f",f);
    inputs::framed("query words before a fragment","/p?",chars("k=&"),tier(9,13),"#a&b=c",f);
    inputs::framed("fragment that looks like a query","?a=b#",chars("k=&?"),tier(5,9),"",f);
    inputs::words("delimiter words",chars("a?#&=/"),tier(7,9),f);
    static const auto N=mc::lengths(5,tier(130,300),{255,256,257,300,1000,32767,32768,65535,65536,65537}); mc::add_job("lists of every length",N.size(),[=](size_t i){ for(int v=0;v<4;++v){ string q="?"; for(size_t k=0;k<N[i];++k){ if(k) q+="&"; if(v!=1) q+="k"+std::to_string(k%7); if(v==2) q+="=v"; if(v==3&&k%2) q+="=%41="; } mc::run(kp,q.substr(0)); mc::run(kp,"x://h/p"+q+"#f&g"); } });
    mc::add_job("every byte in a parameter",256,[=](size_t b){ string c(1,char(b)); for(string s: {"?"+c,"?a"+c+"b","?a="+c+"&"+c+"=b","?k=v"+c+"#f"+c,"?%"+c+"1"}) f(s); for(unsigned d=0;d<256;++d){ string e(1,char(d)); f("?"+c+e); f("?a"+c+"b"+e+"c"); } });
    inputs::needle_texts("every byte at every position of keys and values",tier(16,40),[=](string const& t){ f("?"+t+"&k="+t+"#f"); f("x://h/p?a&"+t+"=v"); });
#else
    inputs::needle_texts("every byte at every position of a segment",tier(16,40),[=](string const& t){ f("/"+t+"/x?q"); f("x:"+t); f("//h/a//"+t+"#f"); });
    inputs::framed("path words with authority","//h",chars("/a.:%"),tier(7,10),"",f);
    inputs::words("path words without authority",chars("/a.:"),tier(8,11),f);
    inputs::framed("path words after a scheme","x:",chars("/a:@"),tier(8,11),"?q/r#s/t",f);
    inputs::framed("path words in a full URL","x://u:p@h:1",{"/","a","%2f","/.","b:c"},tier(7,9),"?q/r&s#t/u",f);
    inputs::words("delimiter words",chars("a/?#:@"),tier(7,9),f);
    static const auto N=mc::lengths(5,tier(130,300),{255,256,257,300,1000,32767,32768,65535,65536,65537}); mc::add_job("lists of every length",N.size(),[=](size_t i){ for(int v=0;v<4;++v){ string q; for(size_t k=0;k<N[i];++k){ q+="/"; if(v!=1) q+="k"+std::to_string(k%7); if(v==2&&k%2) q+="%2f"; } mc::run(kp,v==1?"//h"+q:q); mc::run(kp,"x://h"+q+"?a/b#f/g"); if(v!=1) mc::run(kp,q.substr(1)); } });
    mc::add_job("every byte in a segment",256,[=](size_t b){ string c(1,char(b)); for(string s: {"/"+c,"/a"+c+"b","a/"+c,"x:"+c,"//h/"+c+"/b?"+c,"/%"+c+"1"}) f(s); for(unsigned d=0;d<256;++d){ string e(1,char(d)); f("/"+c+e); f("x:"+c+"/"+e); } });
#endif
    ops::add_long("every call on states with a long component",thorough,0,[](string const& st, ref::call const& c){ seq::run_history(kh,st,{pack(c)}); });
    seq::add("every state x every call", ops::states(1), {step{ops::setters(2),2}}, kh);
    seq::add("every setter with spellings of what is there", ops::rich_states(), {step{ops::setters(2),2,true}}, kh);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{ops::setters(1),1}}, kh);
    seq::add_periodic("every pair of calls repeated eleven times", {"","x://u:p@h:1/a/b?k=v#f","a/b","//[::1]/?#","x:/.//y"}, ops::setters(0), 0, 2, kh);
    seq::add("every pair of calls", ops::few_states(), {step{ops::setters(1),1},step{ops::setters(0),1}}, kh);
    seq::add("every triple of calls", ops::few_states(), {step{ops::setters(0),0},step{ops::setters(tier(0,1)),0},step{ops::setters(tier(0,1)),0}}, kh);
}
