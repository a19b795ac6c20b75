// C12: lookup compares the key byte for byte with each parameter's decoded key.
#include "seq.hpp"
#include "inputs.hpp"
using namespace real;
template<class V> static void look(V& v, ref::pairs const& l, string const& key, string const& ctx)
{
    auto pr=v.params(); size_t n=0, first=l.size();
    for(size_t i=0;i<l.size();++i) if(ref::decode(l[i].first)==key){ if(!n) first=i; ++n; }
    bu::string_view k=bv(key);
    MC_NUM("count(k)",pr.count(k),n);
    MC_NUM("contains(k)",pr.contains(k),n!=0);
    // the key as a view of a longer text that goes on like one of the parameters' keys
    for(size_t i=0;i<l.size()&&i<8;++i)
    {
        string d=ref::decode(l[i].first); if(d.size()<=key.size()||d.compare(0,key.size(),key)) continue;
        d+="="; bu::string_view part(d.data(),key.size());
        MC_NUM("count(k) of a key inside a longer text",pr.count(part),n);
        MC_NUM("contains(k) of a key inside a longer text",pr.contains(part),n!=0);
        MC_TRUE("find(k) of a key inside a longer text",pr.find(part)==pr.find(k));
    }
    auto it=pr.find(k);
    if(!n) MC_TRUE("find(k) is not end()",it==pr.end());
    else
    {
        MC_TRUE("find(k) is end()",it!=pr.end());
        auto z=pr.begin(); for(size_t i=0;i<first;++i) ++z;
        MC_TRUE("find(k) is not the first match",it==z);
        MC_EQ("find(k)->value",(*it).encoded_value(),l[first].second);
    }
    string want= n?ref::decode(l[first].second):string();
    MC_EQ("operator[](k)",pr[k],want);
    talloc<char> al(5);
    for(int a=0;a<2;++a)
    {
        bool threw=false; string got;
        try { if(a==0) got=pr.at(k); else { auto g=pr.at(k,al); got.assign(g.data(),g.size()); } }
        catch(bu::out_of_range const&){ threw=true; }
        MC_NUM("at(k) throws out_of_range",threw,n==0);
        if(!threw) MC_EQ("at(k)",got,want);
    }
    mc::transitions(6);
}
static void lookup(mc::Args const& a) // url, key
{
    string s=a.s(0), key=a.s(1), ctx=quote(s)+" key "+quote(key); U u; if(!ref::parse(s,u)) return;
    ref::pairs l=ref::params(u);
    bu::url_view v(bv(a[0])); look(v,l,key,"url_view "+ctx);
    bu::url w(bv(a[0])); bu::url const& cw=w; look(cw,l,key,"const url "+ctx); look(w,l,key,"url "+ctx);
    size_t n=0; for(auto& p: l) n+=ref::decode(p.first)==key;
    mc::visit(s+"\n"+key); mc::traces(); mc::outcome(n==0?"absent":n==1?"one match":"several matches");
}
static int k=mc::add_kind("lookup",lookup);
static strings keys_of(string const& s)
{
    // every decoded key, its prefixes, extensions, the encoded spelling, and fixed ones
    U u; ref::parse(s,u); strings r={"","a","A","b","=","&","aa","a=","%61"}; r.push_back(string(1,'\0'));
    for(auto& p: ref::params(u)){ string d=ref::decode(p.first); r.push_back(d); r.push_back(p.first); if(!d.empty()){ r.push_back(d.substr(0,d.size()-1)); r.push_back(d.substr(1)); } r.push_back(d+"a"); r.push_back(d+string(1,'\0')); r.push_back("a"+d); r.push_back(ref::decode(p.second)); }
    std::vector<string> o; for(auto& x: r){ bool dup=false; for(auto& y: o) dup=dup||y==x; if(!dup) o.push_back(x); }
    return o;
}
// lookups on an object that has been modified
static void hist(mc::Args const& a)
{
    bu::url v(bv(a[0]));
    for(size_t i=1;i<a.n;++i)
    {
        call c=unpack(a[i]); size_t ret=0;
        if(ref::is_segment_op(c.o)){ size_t n=v.segments().size(); bool ins=c.o==ref::o_insert||c.o==ref::o_insert_enc; if(c.i>n||(c.i==n&&!ins&&c.o!=ref::o_erase_range)||(c.o==ref::o_erase_range&&c.j>n)) break; }
        do_call(v,c,ret);
    }
    U u; sv q=tosv(v.query_part()); u.has_query=!q.empty(); if(u.has_query) u.query=string(q.substr(1));
    ref::pairs l=ref::params(u); bu::url const& cv=v; string ctx=seq::history(a,a.n);
    for(auto& key: keys_of(u.str())) { look(v,l,key,ctx+" key "+quote(key)); look(cv,l,key,ctx+" key "+quote(key)); }
    mc::visit(tosv(v.encoded_url())); mc::traces(); mc::outcome("after modifications");
}
static int kh=mc::add_kind("history",hist);
static void all_keys(string const& s){ U u; if(!ref::parse(s,u)) return; for(auto& key: keys_of(s)) mc::run(k,s,key); }
void mc::setup()
{
    inputs::framed("query words x keys","?",chars("a=&"),tier(8,12),"",all_keys);
    inputs::framed("query words with escapes x keys","x://h/p?",{"a","%61","%41","=","&","%3D","%26"},tier(5,7),"#a=b",all_keys);
    inputs::framed("query words with two letters","?",{"a","b","A","&","=","%00","%"},tier(5,7),"",all_keys);
    inputs::words("no query, fragments and paths that look like one",chars("a=&?#/"),tier(5,8),all_keys);
    mc::add_job("every byte as key, plain and escaped",256,[](size_t b)
    {
        char u[8],l[8]; snprintf(u,8,"%%%02X",unsigned(b)); snprintf(l,8,"%%%02x",unsigned(b)); string c(1,char(b));
        for(string q: {string("?")+u+"=1",string("?a=1&")+l+"=2&"+u+"=3",string("?")+c+"=1",string("?a")+c+"=1&a"+u,string("?x")+l+"y=%41"})
        { U t; if(!ref::parse(q,t)) continue; for(unsigned d=0;d<256;++d) { string e(1,char(d)); mc::run(k,q,e); mc::run(k,q,"a"+e); mc::run(k,q,"x"+e+"y"); } mc::run(k,q,""); }
    });
    inputs::needle_texts("every byte at every position of a key or value",tier(10,24),[](string const& t){ string q="?x"+t+"=1&"+t+"="+t+"&k="+t+"#f"; U u; if(!ref::parse(q,u)) return; auto l=ref::params(u); string d=ref::decode(l[1].first); for(string key: {d,t,"x"+d,string("k"),d.substr(0,d.size()-1),d+"x",d.empty()?d:d.substr(1)}) mc::run(k,q,key); });
    mc::add_job("letter case and length variants",1,[](size_t){ for(auto q: {"?Key=1&key=2&KEY=3","?key=1&keys=2&ke=3","?%4Bey=1&k%65y=2","?longkeylongkeylongkey=1&longkeylongkeylongkez=2"}) for(auto key: {"Key","key","KEY","kEy","ke","k","keys","%4Bey","longkeylongkeylongkey","longkeylongkeylongkez","longkeylongkeylongke"}) mc::run(k,q,key); });
    static const auto L=mc::lengths(1,tier(270,600),{1000,1023,1024,1025,4096,65535,65536,65537});
    mc::add_job("keys of every length: plain, escaped, and off by one character",L.size(),[](size_t i)
    {
        string a, e; for(size_t n=0;n<L[i];++n){ char c=char('a'+n%23); a.push_back(c); if(n%5==3){ char b[8]; snprintf(b,8,"%%%02x",unsigned(c)); e+=b; } else e.push_back(c); }
        string q="?"+e+"x=1&"+e.substr(0,e.size()-1)+"y=2&"+e+"=3&"+a+"=4&k=5";
        strings ks={a,a+"x",a+"z",a.substr(0,a.size()-1),a.substr(0,a.size()-1)+"y",a.substr(1),"k",a+string(1,'\0')};
        string m=a; m[m.size()/2]='Z'; ks.push_back(m); m=a; m[0]='Z'; ks.push_back(m); m=a; m[m.size()-1]='Z'; ks.push_back(m);
        U t; if(!ref::parse(q,t)) q="?"+e+"x=1&y=2&"+e+"=3&"+a+"=4&k=5";
        for(auto& x: ks) mc::run(k,q,x);
    });
    // keys that differ in one bit of one character, at every position
    mc::add_job("near misses of keys of every length",size_t(tier(70,140)),[](size_t n0)
    {
        size_t n=n0+1; for(int esc=0;esc<2;++esc)
        {
            string a, e; for(size_t i=0;i<n;++i){ char c="kKeY5-_~"[(i*5+n)%8]; a.push_back(c); if(esc&&i%3==n%3){ char b[8]; snprintf(b,8,"%%%02x",unsigned(c)); e+=b; } else e.push_back(c); }
            string q="?x=1&"+e+"=v&k=2#f"; mc::run(k,q,a);
            for(size_t i=0;i<n;++i) for(int bit=0;bit<8;++bit) { string m=a; m[i]=char(m[i]^(1<<bit)); mc::run(k,q,m); }
        }
    });
    mc::add_job("long lists",6,[](size_t i){ static const int N[]={10,40,100,256,300,700}; string q="?"; for(int n=0;n<N[i];++n) q+=(n?"&":"")+string("k")+std::to_string(n)+"=v"+std::to_string(n); for(int n=-1;n<=N[i];++n) mc::run(k,q,"k"+std::to_string(n)); });
    strings st=ops::states(2); auto sp=std::make_shared<strings>(st);
    mc::add_job("all URL states",16,[sp](size_t sh){ for(size_t i=sh;i<sp->size();i+=16) all_keys((*sp)[i]); });
    using seq::step;
    ops::add_long("every call on states with a long component",thorough,0,[](string const& st, ref::call const& c){ seq::run_history(kh,st,{pack(c)}); });
    seq::add("after every call", ops::states(0), {step{ops::setters(2),0}}, kh);
    seq::add("after every pair of calls", ops::few_states(), {step{ops::setters(0),0},step{ops::setters(tier(0,1)),0}}, kh);
}
