// Reference model: RFC 3986 URI-reference syntax and the documented setter
// semantics, written from the ABNF and the documentation, independent of /repo
// (nothing of the library is included here). Deliberately boring.
#ifndef MC_REF_HPP
#define MC_REF_HPP
#include <string>
#include <vector>
#include <utility>
#include <cstring>
#include <cstdint>

namespace ref {
using std::string;
typedef std::vector<string> strings;

//---------------------------------------------------------------- characters
inline bool alpha(char c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
inline bool digit(char c){ return c>='0'&&c<='9'; }
inline bool hexdig(char c){ return digit(c)||(c>='a'&&c<='f')||(c>='A'&&c<='F'); }
inline bool in(char c,const char* set){ return c!=0 && std::strchr(set,c)!=nullptr; }
inline bool unreserved(char c){ return alpha(c)||digit(c)||in(c,"-._~"); }
inline bool subdelim(char c){ return in(c,"!$&'()*+,;="); }
// classes without pct-encoded
inline bool c_regname(char c){ return unreserved(c)||subdelim(c); }
inline bool c_user(char c){ return unreserved(c)||subdelim(c); }
inline bool c_userinfo(char c){ return unreserved(c)||subdelim(c)||c==':'; }
inline bool c_pchar(char c){ return unreserved(c)||subdelim(c)||c==':'||c=='@'; }
inline bool c_query(char c){ return c_pchar(c)||c=='/'||c=='?'; }
inline bool c_schemech(char c){ return alpha(c)||digit(c)||in(c,"+-."); }
typedef bool(*cls)(char);

// *( class / pct-encoded )
inline bool enc_ok(const string& s, cls f)
{
    for(size_t i=0;i<s.size();)
    {
        if(s[i]=='%')
        {
            if(i+2>=s.size() || !hexdig(s[i+1]) || !hexdig(s[i+2])) return false;
            i+=3;
        }
        else { if(!f(s[i])) return false; ++i; }
    }
    return true;
}
inline int hexval(char c){ return digit(c)?c-'0':(c>='a'?c-'a'+10:c-'A'+10); }
inline string decode(const string& s)
{
    string r;
    for(size_t i=0;i<s.size();)
        if(s[i]=='%'){ r.push_back(char(hexval(s[i+1])*16+hexval(s[i+2]))); i+=3; }
        else r.push_back(s[i++]);
    return r;
}
inline string encode(const string& s, cls f)
{
    string r;
    for(size_t i=0;i<s.size();++i)
        if(f(s[i])) r.push_back(s[i]);
        else { static const char H[]="0123456789ABCDEF"; unsigned char u=(unsigned char)s[i];
               r.push_back('%'); r.push_back(H[u>>4]); r.push_back(H[u&15]); }
    return r;
}
inline strings split(const string& s, char sep)
{
    strings r; string cur;
    for(size_t i=0;i<s.size();++i){ if(s[i]==sep){ r.push_back(cur); cur.clear(); } else cur.push_back(s[i]); }
    r.push_back(cur);
    return r;
}

//---------------------------------------------------------------- hosts
enum host_kind { h_none=0, h_name=1, h_ipv4=2, h_ipv6=3, h_ipvfuture=4 };

inline bool dec_octet(const string& s)
{
    if(s.empty()||s.size()>3) return false;
    for(size_t i=0;i<s.size();++i) if(!digit(s[i])) return false;
    if(s.size()>1 && s[0]=='0') return false;
    int v=0; for(size_t i=0;i<s.size();++i) v=v*10+(s[i]-'0');
    return v<=255;
}
inline bool ipv4(const string& s)
{
    strings p=split(s,'.');
    if(p.size()!=4) return false;
    for(size_t i=0;i<4;++i) if(!dec_octet(p[i])) return false;
    return true;
}
inline bool h16(const string& s)
{
    if(s.empty()||s.size()>4) return false;
    for(size_t i=0;i<s.size();++i) if(!hexdig(s[i])) return false;
    return true;
}
// number of 16-bit groups in a ':'-separated list (an IPv4 tail counts two), -1 if malformed
inline int groups(const string& s, bool tail)
{
    if(s.empty()) return 0;
    strings g=split(s,':'); int n=0;
    for(size_t i=0;i<g.size();++i)
    {
        if(h16(g[i])) { ++n; continue; }
        if(tail && i+1==g.size() && ipv4(g[i])) { n+=2; continue; }
        return -1;
    }
    return n;
}
inline bool ipv6(const string& s)
{
    size_t p=s.find("::");
    if(p==string::npos) return groups(s,true)==8;
    string l=s.substr(0,p), r=s.substr(p+2);
    if(r.find("::")!=string::npos || (!r.empty()&&r[0]==':')) return false;
    int a=groups(l,false), b=groups(r,true);
    return a>=0 && b>=0 && a+b<=7;
}
inline bool ipvfuture(const string& s)
{
    if(s.empty()||(s[0]!='v'&&s[0]!='V')) return false;
    size_t i=1; while(i<s.size()&&hexdig(s[i])) ++i;
    if(i==1||i>=s.size()||s[i]!='.') return false;
    if(++i>=s.size()) return false;
    for(;i<s.size();++i) if(!(unreserved(s[i])||subdelim(s[i])||s[i]==':')) return false;
    return true;
}
// kind of an encoded host; -1 if it is not a host
inline int host_class(const string& s)
{
    if(s.empty()) return h_none;
    if(s[0]=='[')
    {
        if(s.size()<2||s[s.size()-1]!=']') return -1;
        string in=s.substr(1,s.size()-2);
        if(ipv6(in)) return h_ipv6;
        if(ipvfuture(in)) return h_ipvfuture;
        return -1;
    }
    if(ipv4(s)) return h_ipv4;
    return enc_ok(s,c_regname) ? h_name : -1;
}

//---------------------------------------------------------------- components
struct U
{
    bool has_scheme=false; string scheme;
    bool auth=false;
    bool at=false; string user; bool colon=false; string pass;
    string host;
    bool has_port=false; string port;
    string path;
    bool has_query=false; string query;
    bool has_frag=false; string frag;

    string userinfo() const { return user+(colon?":"+pass:string()); }
    string authority() const
    {
        string r;
        if(at) r+=userinfo()+"@";
        r+=host;
        if(has_port) r+=":"+port;
        return r;
    }
    string origin() const
    {
        string r;
        if(has_scheme) r+=scheme+":";
        if(auth) r+="//"+authority();
        return r;
    }
    string str() const
    {
        string r=origin()+path;
        if(has_query) r+="?"+query;
        if(has_frag) r+="#"+frag;
        return r;
    }
    void no_userinfo(){ at=colon=false; user.clear(); pass.clear(); }
    void no_authority(){ auth=false; no_userinfo(); host.clear(); has_port=false; port.clear(); }
};

inline bool scheme_ok(const string& s)
{
    if(s.empty()||!alpha(s[0])) return false;
    for(size_t i=0;i<s.size();++i) if(!c_schemech(s[i])) return false;
    return true;
}
inline bool digits(const string& s){ for(size_t i=0;i<s.size();++i) if(!digit(s[i])) return false; return true; }

inline bool parse_userinfo(const string& s, U& u)
{
    if(!enc_ok(s,c_userinfo)) return false;
    size_t c=s.find(':');
    u.user=s.substr(0,c);
    u.colon=c!=string::npos;
    u.pass=u.colon?s.substr(c+1):string();
    return true;
}
// authority = [ userinfo "@" ] host [ ":" port ]
inline bool parse_authority(const string& s, U& u)
{
    u.no_authority();
    u.auth=true;
    string hp=s;
    size_t a=s.find('@');
    if(a!=string::npos)
    {
        u.at=true;
        if(!parse_userinfo(s.substr(0,a),u)) return false;
        hp=s.substr(a+1);
    }
    size_t e;
    if(!hp.empty()&&hp[0]=='[')
    {
        e=hp.find(']');
        if(e==string::npos) return false;
        ++e;
    }
    else
    {
        e=hp.find(':');
        if(e==string::npos) e=hp.size();
    }
    u.host=hp.substr(0,e);
    if(host_class(u.host)<0) return false;
    if(e<hp.size())
    {
        if(hp[e]!=':') return false;
        u.has_port=true;
        u.port=hp.substr(e+1);
        if(!digits(u.port)) return false;
    }
    return true;
}
inline bool path_chars(const string& s)
{
    strings p=split(s,'/');
    for(size_t i=0;i<p.size();++i) if(!enc_ok(p[i],c_pchar)) return false;
    return true;
}
// path grammar in the context of the other components
inline bool path_ok(const string& s, bool has_scheme, bool auth)
{
    if(!path_chars(s)) return false;
    if(s.empty()) return true;
    if(auth) return s[0]=='/';                       // path-abempty
    if(s[0]=='/') return s.size()<2||s[1]!='/';      // path-absolute
    if(has_scheme) return true;                      // path-rootless
    return s.substr(0,s.find('/')).find(':')==string::npos; // path-noscheme
}
// URI-reference
inline bool parse(const string& s, U& u)
{
    u=U();
    string r=s;
    size_t h=r.find('#');
    if(h!=string::npos){ u.has_frag=true; u.frag=r.substr(h+1); r=r.substr(0,h); }
    size_t q=r.find('?');
    if(q!=string::npos){ u.has_query=true; u.query=r.substr(q+1); r=r.substr(0,q); }
    size_t c=r.find(':');
    if(c!=string::npos && scheme_ok(r.substr(0,c))){ u.has_scheme=true; u.scheme=r.substr(0,c); r=r.substr(c+1); }
    if(r.substr(0,2)=="//")
    {
        size_t e=r.find('/',2);
        if(e==string::npos) e=r.size();
        if(!parse_authority(r.substr(2,e-2),u)) return false;
        r=r.substr(e);
    }
    u.path=r;
    return path_ok(u.path,u.has_scheme,u.auth) && enc_ok(u.query,c_query) && enc_ok(u.frag,c_query);
}
// the invariant that U denotes the URL u.str()
inline bool consistent(const U& u)
{
    U v;
    return parse(u.str(),v) && v.str()==u.str() && v.has_scheme==u.has_scheme && v.scheme==u.scheme
        && v.auth==u.auth && v.at==u.at && v.user==u.user && v.colon==u.colon && v.pass==u.pass
        && v.host==u.host && v.has_port==u.has_port && v.port==u.port && v.path==u.path
        && v.has_query==u.has_query && v.query==u.query && v.has_frag==u.has_frag && v.frag==u.frag;
}

inline strings segments(const string& path)
{
    if(path.empty()) return strings();
    return split(path[0]=='/'?path.substr(1):path,'/');
}
typedef std::vector<std::pair<string,string>> pairs;
inline pairs params(const U& u)
{
    pairs r;
    if(!u.has_query) return r;
    strings p=split(u.query,'&');
    for(size_t i=0;i<p.size();++i)
    {
        size_t e=p[i].find('=');
        r.push_back(std::make_pair(p[i].substr(0,e), e==string::npos?string():p[i].substr(e+1)));
    }
    return r;
}

//---------------------------------------------------------------- operations
enum op
{
    o_url, o_origin, o_scheme, o_authority, o_userinfo, o_userinfo_part,
    o_user, o_enc_user, o_password, o_enc_password, o_password_part,
    o_host, o_enc_host, o_portnum, o_port, o_port_part, o_path,
    o_query, o_enc_query, o_query_part, o_fragment, o_enc_fragment, o_fragment_part,
    o_normalize, o_normalize_scheme, o_assign,
    o_insert, o_insert_enc, o_replace, o_replace_enc, o_erase, o_erase_range,
    o_count
};
inline const char* op_name(int o)
{
    static const char* const n[]={"set_encoded_url","set_encoded_origin","set_scheme","set_encoded_authority",
    "set_encoded_userinfo","set_userinfo_part","set_user","set_encoded_user","set_password","set_encoded_password",
    "set_password_part","set_host","set_encoded_host","set_port(unsigned)","set_port","set_port_part","set_encoded_path",
    "set_query","set_encoded_query","set_query_part","set_fragment","set_encoded_fragment","set_fragment_part",
    "normalize","normalize_scheme","operator=","segments.insert","segments.insert_encoded","segments.replace",
    "segments.replace_encoded","segments.erase(pos)","segments.erase(first,last)"};
    return o>=0&&o<o_count?n[o]:"?";
}
struct call
{
    int o; string s; unsigned i, j; // i,j: segment positions, i also the port number
    call(int o_=0,const string& s_=string(),unsigned i_=0,unsigned j_=0):o(o_),s(s_),i(i_),j(j_){}
};
enum verdict { v_ok, v_throw, v_any /* undocumented corner: either outcome */ };

// Applies c to u by the documented rules. v_throw: the call must throw
// invalid_part and change nothing. `next`: expected index of the returned iterator.
inline verdict apply_unchecked(U& u, const call& c, size_t& next)
{
    const string& s=c.s;
    U t;
    switch(c.o)
    {
    case o_url: case o_assign:
        if(!parse(s,t)) return v_throw;
        u=t; return v_ok;
    case o_origin:
    {
        if(s.empty()){ u.has_scheme=false; u.scheme.clear(); u.no_authority(); return v_ok; }
        if(!parse(s,t)||!t.has_scheme||t.has_query||t.has_frag) return v_throw;
        if(!t.auth&&!t.path.empty()) return v_throw;
        string p=u.path, q=u.query, f=u.frag; bool hq=u.has_query, hf=u.has_frag;
        u=t; u.path=p; u.query=q; u.frag=f; u.has_query=hq; u.has_frag=hf;
        return v_ok;
    }
    case o_scheme:
        if(!s.empty()&&!scheme_ok(s)) return v_throw;
        u.has_scheme=!s.empty(); u.scheme=s; return v_ok;
    case o_authority:
        if(s.empty()){ u.no_authority(); return v_ok; }
        // the argument is an authority: no character that would end it
        if(s.find_first_of("/?#")!=string::npos) return v_throw;
        if(!parse_authority(s,t)) return v_throw;
        u.auth=true; u.at=t.at; u.user=t.user; u.colon=t.colon; u.pass=t.pass; u.host=t.host; u.has_port=t.has_port; u.port=t.port;
        return v_ok;
    case o_userinfo: case o_userinfo_part:
    {
        string w=s;
        if(c.o==o_userinfo_part&&!w.empty())
        {
            if(w[w.size()-1]!='@') return v_throw;
            w.erase(w.size()-1);
        }
        if(w.empty())
        {
            u.no_userinfo();
            if(u.host.empty()&&!u.has_port) u.no_authority();
            return v_ok;
        }
        if(!parse_userinfo(w,t)) return v_throw;
        u.auth=u.at=true; u.user=t.user; u.colon=t.colon; u.pass=t.pass;
        return v_ok;
    }
    case o_user: case o_enc_user:
        if(s.empty()){ if(u.at){ u.user.clear(); if(!u.colon) u.at=false; } return v_ok; }
        if(c.o==o_enc_user&&!enc_ok(s,c_user)) return v_throw;
        u.auth=u.at=true; u.user=c.o==o_user?encode(s,c_user):s;
        return v_ok;
    case o_password: case o_enc_password: case o_password_part:
    {
        string w=s; bool part=c.o==o_password_part;
        if(part&&!w.empty()&&w[0]!=':') return v_throw;
        if(w.empty()){ u.colon=false; u.pass.clear(); if(u.at&&u.user.empty()) u.at=false; return v_ok; }
        if(part) w.erase(0,1);
        if(c.o==o_password) w=encode(w,c_userinfo);
        else
        {
            if(!enc_ok(w,c_userinfo)) return v_throw;
            if(!w.empty()&&w[0]==':') { if(part) return v_any; return v_throw; }
        }
        u.auth=u.at=u.colon=true; u.pass=w;
        return v_ok;
    }
    case o_host: case o_enc_host:
    {
        if(s.empty()){ u.host.clear(); if(!u.at&&!u.has_port) u.no_authority(); return v_ok; }
        int k=host_class(s);
        if(c.o==o_enc_host&&k<0) return v_throw;
        u.auth=true;
        // set_host: addresses verbatim, everything else is a name and gets encoded
        u.host=(c.o==o_enc_host||k==h_ipv4||k==h_ipv6||k==h_ipvfuture)?s:encode(s,c_regname);
        return v_ok;
    }
    case o_portnum:
    {
        string d; unsigned n=c.i; do { d.insert(d.begin(),char('0'+n%10)); n/=10; } while(n);
        u.auth=true; u.has_port=true; u.port=d; return v_ok;
    }
    case o_port: case o_port_part:
    {
        string w=s; bool part=c.o==o_port_part;
        if(w.empty()){ u.has_port=false; u.port.clear(); if(!u.at&&u.host.empty()) u.no_authority(); return v_ok; }
        if(part){ if(w[0]!=':') return v_throw; w.erase(0,1); }
        if(!digits(w)) return v_throw;
        u.auth=u.has_port=true; u.port=w; return v_ok;
    }
    case o_path:
        if(!path_ok(s,u.has_scheme,u.auth)) return v_throw;
        u.path=s; return v_ok;
    case o_query: case o_enc_query: case o_query_part:
    {
        string w=s; bool part=c.o==o_query_part;
        if(w.empty()){ u.has_query=false; u.query.clear(); return v_ok; }
        if(part){ if(w[0]!='?') return v_throw; w.erase(0,1); }
        if(c.o==o_query) w=encode(w,c_query); else if(!enc_ok(w,c_query)) return v_throw;
        u.has_query=true; u.query=w; return v_ok;
    }
    case o_fragment: case o_enc_fragment: case o_fragment_part:
    {
        string w=s; bool part=c.o==o_fragment_part;
        if(w.empty()){ u.has_frag=false; u.frag.clear(); return v_ok; }
        if(part){ if(w[0]!='#') return v_throw; w.erase(0,1); }
        if(c.o==o_fragment) w=encode(w,c_query); else if(!enc_ok(w,c_query)) return v_throw;
        u.has_frag=true; u.frag=w; return v_ok;
    }
    case o_normalize: case o_normalize_scheme:
        for(size_t k=0;k<u.scheme.size();++k) if(u.scheme[k]>='A'&&u.scheme[k]<='Z') u.scheme[k]+=32;
        return v_ok;
    case o_insert: case o_insert_enc: case o_replace: case o_replace_enc: case o_erase: case o_erase_range:
    {
        strings l=segments(u.path);
        bool rooted=u.path.empty()||u.path[0]=='/';
        size_t i=c.i, j=c.j;
        string w=s;
        if(c.o==o_insert||c.o==o_replace) w=encode(w,c_pchar);
        if((c.o==o_insert_enc||c.o==o_replace_enc)&&!enc_ok(w,c_pchar)) return v_throw;
        bool erase=false;
        if(c.o==o_insert||c.o==o_insert_enc){ l.insert(l.begin()+i,w); next=i+1; }
        else if(c.o==o_replace||c.o==o_replace_enc){ l[i]=w; next=i+1; }
        else
        {
            erase=true;
            if(c.o==o_erase) j=i+1;
            if(i==j){ next=i; return v_ok; }
            l.erase(l.begin()+i,l.begin()+j); next=i;
        }
        for(int pass=0;;++pass)
        {
            string p;
            for(size_t k=0;k<l.size();++k) p+=(k||rooted?"/":"")+l[k];
            // does p still denote the list l, rooted or not as asked?
            bool same=path_ok(p,u.has_scheme,u.auth)
                && (l.empty() ? p.empty() : (!p.empty() && (p[0]=='/')==rooted && segments(p)==l));
            if(same){ u.path=p; return v_ok; }
            if(!erase||pass) return v_throw;
            l.insert(l.begin(),"."); ++next; // stand-in keeps an erase meaningful
        }
    }
    }
    return v_throw;
}
// refused because the text would no longer mean what was asked
inline bool ambiguous(const U& u){ return !consistent(u); }

inline verdict apply(U& u, const call& c, size_t& next, bool* was_ambiguous=nullptr)
{
    if(was_ambiguous) *was_ambiguous=false;
    U t=u;
    verdict v=apply_unchecked(t,c,next);
    if(v==v_ok&&ambiguous(t)){ if(was_ambiguous) *was_ambiguous=true; v=v_throw; }
    if(v==v_ok) u=t;
    return v;
}
inline bool is_segment_op(int o){ return o>=o_insert&&o<=o_erase_range; }
} // ref
#endif
