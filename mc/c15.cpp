// C15: known schemes are recognised case-insensitively and nothing else is.
#include "real.hpp"
#include "inputs.hpp"
using namespace real;
// The C library's case conversion depends on the program's locale. The library must not: the
// check supplies its own tolower/toupper, which follow a model of the "C" locale or of a
// Turkish single-byte locale (ISO 8859-9), and refuse arguments the C standard forbids.
static bool turkish=false;
static int misuse=0;
static void domain(int c){ if(c<-1||c>255) misuse=c; }
extern "C" int tolower(int c) noexcept { domain(c); if(turkish){ if(c=='I') return 0xFD; if(c==0xDD) return 'i'; } return c>='A'&&c<='Z'?c+32:c; }
extern "C" int toupper(int c) noexcept { domain(c); if(turkish){ if(c=='i') return 0xDD; if(c==0xFD) return 'I'; } return c>='a'&&c<='z'?c-32:c; }
static const char* const known[]={"ftp","file","http","https","ws","wss"};
static bu::scheme const vals[]={bu::scheme::ftp,bu::scheme::file,bu::scheme::http,bu::scheme::https,bu::scheme::ws,bu::scheme::wss};
static int want(string const& s)
{
    string l=s; for(auto& c: l) if(c>='A'&&c<='Z') c+=32;
    for(int i=0;i<6;++i) if(l==known[i]) return i;
    return -1;
}
static void one(mc::Args const& a)
{
    for(int t=0;t<2;++t)
    {
    turkish=t!=0; misuse=0;
    string s=a.s(0), ctx="string_to_scheme("+quote(s)+(t?") in a Turkish locale":")"); int w=want(s);
    // exact-size copy: nothing behind the text may matter
    std::vector<char> buf(s.begin(),s.end()); bu::string_view v(buf.empty()?"":buf.data(),s.size());
    bu::scheme r=bu::string_to_scheme(v);
    MC_NUM(ctx,int(r),int(w<0?bu::scheme::unknown:vals[w]));
    bu::string_view n=bu::to_string(r);
    MC_EQ("to_string",n,w<0?string(tosv(bu::to_string(bu::scheme::unknown))):string(known[w]));
    MC_NUM("is_special("+quote(s)+")",bu::is_special(v),w>=0);
    if(w>=0) MC_NUM("string_to_scheme(to_string(x))",int(bu::string_to_scheme(n)),int(r));
    MC_TRUE("the C library's tolower/toupper was called with "+std::to_string(misuse)+", which is undefined behaviour",misuse==0);
    if(!t){ mc::visit(s); mc::traces(); mc::outcome(w<0?"unknown":known[w]); }
    mc::transitions(3);
    }
    turkish=false;
}
static int k=mc::add_kind("scheme",one);
static void names(mc::Args const&)
{
    string ctx="enumerators";
    for(int i=0;i<6;++i){ MC_EQ("to_string",bu::to_string(vals[i]),string(known[i])); MC_NUM("is_special",bu::is_special(bu::to_string(vals[i])),1); for(int j=0;j<i;++j) MC_TRUE("enumerators differ",vals[i]!=vals[j]); MC_TRUE("known is not unknown",vals[i]!=bu::scheme::unknown); }
    string u(tosv(bu::to_string(bu::scheme::unknown))); MC_TRUE("placeholder is not empty",!u.empty()); MC_NUM("placeholder is not a known name",want(u),-1); MC_NUM("is_special(placeholder)",bu::is_special(bu::to_string(bu::scheme::unknown)),0);
    MC_TRUE("placeholder is fixed",tosv(bu::to_string(bu::scheme::unknown))==sv(u));
    for(int v=0;v<256;++v){ bool kn=false; for(auto x: vals) kn=kn||int(x)==v; if(!kn) MC_EQ("to_string of a value that is no known scheme",bu::to_string(bu::scheme(v)),u); }
    mc::transitions(13+256); mc::traces(); mc::visit("enumerators");
}
static int kn=mc::add_kind("enumerators",names);
void mc::setup()
{
    auto f=[](string const& s){ mc::run(k,s); };
    mc::add_job("enumerators",1,[](size_t){ mc::run(kn); });
    mc::add_job("all byte strings of length <=3",256,[=](size_t sh){ for(unsigned n=0;n<=3;++n) all_bytes(n,sh,f); });
    inputs::words("words over the letters of the known names, both cases",chars("ftpilehswFTPILEHSW"),tier(4,6),f);
    inputs::words("words over the letters of the known names",chars("ftpilehsw"),tier(6,8),f);
    mc::add_job("all case variants and all single-byte edits of them",6,[=](size_t i){ string n=known[i]; for(unsigned m=0;m<(1u<<n.size());++m){ string x=n; for(size_t b=0;b<n.size();++b) if(m>>b&1) x[b]-=32; f(x); for(size_t p=0;p<=x.size();++p) for(unsigned b=0;b<256;++b){ string y=x; y.insert(p,1,char(b)); f(y); if(p<x.size()){ y=x; y[p]=char(b); f(y); } } for(size_t p=0;p<x.size();++p){ string y=x; y.erase(p,1); f(y); } } });
    mc::add_job("all double-byte edits of the names",6*16,[=](size_t sh){ string n=known[sh/16]; for(size_t p=0;p<n.size();++p) for(size_t q=p+1;q<n.size();++q) for(unsigned b=unsigned(sh%16);b<256;b+=16) for(unsigned c=0;c<256;++c){ string y=n; y[p]=char(b); y[q]=char(c); f(y); } });
    mc::add_job("long strings around the names",6,[=](size_t i){ string n=known[i]; for(size_t L: {10,100,255,256,257,258,259,260,261,65536,65540,65541}) { f(n+string(L,'a')); f(string(L,'a')+n); f(n+string(L,'\0')); f(n+n); f(string(L,n[0])); } });
}
