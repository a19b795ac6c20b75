// Conformance of the reference model: every string of the input family is judged by ref::parse and
// by the released Boost.URL 1.83 (the installed library, not the code under test).
// g++ -std=c++17 -O2 -I mc tools/oracle_check.cpp mc/rt.cpp -lboost_url -lpthread -o /tmp/oc && /tmp/oc --workers 8
#include <boost/url.hpp>
#include "inputs.hpp"
#include <algorithm>
namespace B = boost::urls;
using std::string;
static string q(string const& s){ string r; for(unsigned char c: s){ if(c>=32&&c<127) r+=c; else { char b[8]; snprintf(b,8,"\\x%02x",c); r+=b; } } return "\""+r.substr(0,200)+"\""; }
static void one(mc::Args const& a)
{
    string s=a.s(0); ref::U u;
    bool want=ref::parse(s,u);
    // the one known leniency of Boost.URL 1.83: '#' inside a fragment
    if(std::count(s.begin(),s.end(),'#')>1){ mc::outcome(want?"ref accepts a second #":"second # (not compared)"); if(want) mc::fail("second #"); return; }
    // another: an upper-case V in IPvFuture (ABNF literals are case-insensitive)
    if(s.find("[V")!=string::npos){ mc::outcome("[V (not compared)"); return; }
    // and RFC 6874 zone identifiers
    { size_t b=s.find('['); if(b!=string::npos&&s.find("%25",b)!=string::npos){ mc::outcome("zone id (not compared)"); return; } }
    auto r=B::parse_uri_reference(s);
    // another: an authority may be followed by a path that does not begin with '/'
    if(r&&!want&&r->has_authority()&&!r->encoded_path().empty()&&r->encoded_path()[0]!='/'){ mc::outcome("authority with rootless path (not compared)"); return; }
    if(bool(r)!=want) mc::fail("ref "+string(want?"accepts ":"refuses ")+q(s)+", Boost.URL "+(r?"accepts":"refuses"));
    mc::visit(a[0]); mc::transitions(1); mc::traces(); mc::outcome(want?"accepted":"refused");
    if(!want||!r) return;
    B::url_view v=*r;
    auto eq=[&](const char* n, string const& x, boost::core::string_view y){ if(x!=string(y.data(),y.size())) mc::fail(string(n)+" of "+q(s)+": ref "+q(x)+" Boost.URL "+q(string(y.data(),y.size()))); };
    auto eb=[&](const char* n, bool x, bool y){ if(x!=y) mc::fail(string(n)+" of "+q(s)+" differs"); };
    eb("has_scheme",u.has_scheme,v.has_scheme()); eq("scheme",u.scheme,v.scheme());
    eb("has_authority",u.auth,v.has_authority()); eb("has_userinfo",u.at,v.has_userinfo());
    eq("user",u.user,boost::core::string_view(v.encoded_user())); eb("has_password",u.colon,v.has_password()); eq("password",u.pass,boost::core::string_view(v.encoded_password()));
    eq("host",u.host,boost::core::string_view(v.encoded_host())); eb("has_port",u.has_port,v.has_port()); eq("port",u.port,v.port());
    eq("path",u.path,boost::core::string_view(v.encoded_path())); eb("has_query",u.has_query,v.has_query()); eq("query",u.query,boost::core::string_view(v.encoded_query()));
    eb("has_fragment",u.has_frag,v.has_fragment()); eq("fragment",u.frag,boost::core::string_view(v.encoded_fragment()));
    int h=ref::host_class(u.host); B::host_type t=v.host_type();
    bool same= h==ref::h_none? (t==B::host_type::none||t==B::host_type::name) : h==ref::h_ipv4? t==B::host_type::ipv4 : h==ref::h_ipv6? t==B::host_type::ipv6 : h==ref::h_ipvfuture? t==B::host_type::ipvfuture : t==B::host_type::name;
    eb("host_type",same,true);
    if(u.query.empty()) return; // Boost.URL 1.83 miscounts the parameters of an empty query before a fragment
    ref::pairs p=ref::params(u); size_t i=0;
    for(auto x: v.encoded_params()){ if(i<p.size()){ eq("key",p[i].first,boost::core::string_view(x.key)); eq("value",p[i].second,boost::core::string_view(x.value)); } ++i; }
    eb("number of params",i==p.size(),true);
    if(ref::decode(u.query)!=v.query()) mc::fail("decoded query of "+q(s));
    if(ref::decode(u.host)!=v.host()) mc::fail("decoded host of "+q(s));
}
static int k=mc::add_kind("parse",one);
void mc::setup(){ inputs::add_all([](string const& s){ mc::run(k,s); }); inputs::add_valid([](string const& s){ mc::run(k,s); }); }
