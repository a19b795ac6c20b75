// C22: failures are reported with the documented error types and codes.
#include "seq.hpp"
#include "inputs.hpp"
#include <system_error>
#include <type_traits>
using namespace real;
struct own_exception : std::bad_alloc { int id; own_exception(int i):id(i){} };
struct foreign_exception { int id; }; // not derived from anything
static int mode=0; static long cd=-1;
template<class T> struct xalloc
{
    typedef T value_type; xalloc(){} template<class V> xalloc(xalloc<V> const&){}
    T* allocate(size_t n){ if(cd>=0&&cd--==0){ if(mode==0) throw std::bad_alloc(); if(mode==1) throw own_exception(42); throw foreign_exception{43}; } return static_cast<T*>(std::malloc(n*sizeof(T))); }
    void deallocate(T* p,size_t) noexcept { std::free(p); }
    template<class V> bool operator==(xalloc<V> const&) const { return true; } template<class V> bool operator!=(xalloc<V> const&) const { return false; }
};
typedef bu::basic_url<xalloc<char>> xurl;
// runs f, which must either succeed or throw an invalid_part that is a std::invalid_argument; returns whether it threw
template<class F> static bool refuses(F f, string const& ctx)
{
    try { f(); return false; }
    catch(bu::invalid_part const& e)
    {
        MC_TRUE("invalid_part is not a std::invalid_argument",(std::is_base_of<std::invalid_argument,bu::invalid_part>::value)); char const* x=e.what();
        MC_TRUE("what() is empty",x!=nullptr&&x[0]!=0);
    }
    catch(std::exception const& e){ mc::fail(string("throws ")+typeid(e).name()+" instead of invalid_part ["+ctx+"]"); }
    catch(mc::Fail const&){ throw; }
    catch(...){ mc::fail("throws something that is not a std::exception ["+ctx+"]"); }
    // also catchable through each documented base
    bool a=false,b=false; try { f(); } catch(std::invalid_argument const&){ a=true; } catch(...){} try { f(); } catch(std::exception const&){ b=true; } catch(...){}
    MC_TRUE("not catchable as std::invalid_argument",a); MC_TRUE("not catchable as std::exception",b);
    return true;
}
static void parse(mc::Args const& a)
{
    string s=a.s(0), ctx=quote(s); U u; bool ok=ref::parse(s,u);
    for(int w=0;w<3;++w)
    {
        bool t=refuses([&]{ if(w==0){ bu::url_view v(bv(s)); } else if(w==1){ bu::url v(bv(s)); } else { bu::url v(bv("//h")); v.set_encoded_url(bv(s)); } },(w==0?"url_view ":w==1?"url ":"set_encoded_url ")+ctx);
        if(!ok) MC_TRUE("no exception for a malformed URL",t); mc::transitions();
    }
    mc::visit(s); mc::traces(); mc::outcome(ok?"parsed":"invalid_part from parsing");
}
static void callk(mc::Args const& a)
{
    call c=unpack(a[1]); U u; ref::parse(a.s(0),u); size_t nx,ret; ref::verdict w=ref::apply(u,c,nx); if(w==ref::v_any) return; string ctx=seq::history(a,1);
    bu::url v(bv(a[0]));
    bool t=refuses([&]{ if(c.o==ref::o_assign){ bu::url x(bv(c.s)); v=x; return; } do_op(v,c,ret); },ctx); mc::transitions();
    if(w==ref::v_throw) MC_TRUE("a malformed or ambiguous argument is not reported",t);
    // the allocator's own exception comes through unchanged
    for(mode=0;mode<3;++mode) for(long k=0;k<8;++k)
    {
        cd=-1; xurl x(bv(a[0])); int got=0;
        if(ref::is_segment_op(c.o)&&(c.o==ref::o_erase||c.o==ref::o_erase_range)) break; // noexcept
        xurl src; if(c.o==ref::o_assign){ U q; if(!ref::parse(c.s,q)) break; src.set_encoded_url(bv(c.s)); }
        cd=k;
        try { if(c.o==ref::o_assign) x=src; else do_op(x,c,ret); } catch(own_exception const& e){ got=e.id; } catch(std::bad_alloc const&){ got=41; } catch(foreign_exception const& e){ got=e.id; } catch(bu::invalid_part const&){ got=1; } catch(mc::Fail const&){ throw; } catch(std::exception const&){ got=2; } catch(...){ got=3; }
        bool hit=cd<0; cd=-1; // the counter ran out: the allocation was refused
        if(hit&&w==ref::v_ok) MC_NUM("exception when the allocator throws",got,mode==0?41:mode==1?42:43);
        if(!hit&&w==ref::v_ok) MC_NUM("exception although nothing failed",got,0);
        mc::transitions(); if(!hit) break; mc::outcome("allocator's exception");
    }
    mc::visit(a.s(0)+"\n"+a.s(1)); mc::traces(); mc::outcome(t?"invalid_part from a setter":"accepted");
}
static void missing(mc::Args const& a) // url, key
{
    string ctx=quote(a[0])+" at("+quote(a[1])+")"; U u; ref::parse(a.s(0),u); bool there=false; for(auto& p: ref::params(u)) there=there||ref::decode(p.first)==a.s(1);
    bu::url v(bv(a[0])); bu::url const& cv=v; bu::url_view w(bv(a[0])); auto k=bv(a[1]);
    for(int which=0;which<3;++which)
    {
        auto f=[&]{ if(which==0) v.params().at(k); else if(which==1) cv.params().at(k); else w.params().at(k); };
        int got=0; try { f(); } catch(bu::out_of_range const& e){ got=1; MC_TRUE("what() is empty",e.what()&&e.what()[0]); } catch(...){ got=9; }
        MC_NUM("at() of a missing key",got,there?0:1);
        if(!there){ bool b=false; try { f(); } catch(std::out_of_range const&){ b=true; } catch(...){} MC_TRUE("not a std::out_of_range",b); b=false; try { f(); } catch(std::exception const&){ b=true; } catch(...){} MC_TRUE("not a std::exception",b); }
        mc::transitions();
    }
    mc::visit(a.s(0)+"\n"+a.s(1)); mc::traces(); mc::outcome(there?"key present":"out_of_range");
}
template<class E,class B> static void raises(const char* n)
{
    string ctx=string(n)+"::raise()"; int got=0;
    try { E::raise(); } catch(E const& e){ char const* x=e.what(); got=x&&x[0]?1:2; } catch(...){ got=3; }
    MC_NUM("exception",got,1);
    MC_TRUE("not derived from its documented standard base",(std::is_base_of<B,E>::value)); MC_TRUE("not derived from std::exception",(std::is_base_of<std::exception,E>::value));
    got=0; try { E::raise(); } catch(B const&){ got=1; } catch(...){} MC_NUM("catchable as its standard base",got,1); 
    got=0; try { throw E(); } catch(std::exception const& e){ got=e.what()[0]!=0; } MC_NUM("constructible with a message",got,1); mc::transitions(3);
}
static void codes(mc::Args const&)
{
    string ctx="error codes";
    raises<bu::parse_error,std::invalid_argument>("parse_error"); raises<bu::invalid_part,std::invalid_argument>("invalid_part"); raises<bu::too_large,std::length_error>("too_large"); raises<bu::out_of_range,std::out_of_range>("out_of_range");
    bu::error const all[]={bu::error::no_match,bu::error::syntax,bu::error::invalid,bu::error::missing_scheme,bu::error::bad_scheme_start_char,bu::error::bad_scheme_char,bu::error::bad_username_char,bu::error::bad_userinfo_char,bu::error::bad_port_char,bu::error::port_overflow,bu::error::missing_hostname,bu::error::missing_port,bu::error::bad_pct_encoding_digit,bu::error::incomplete_pct_encoding,bu::error::illegal_reserved_char};
    bu::error_code none; bu::error_condition cond=bu::condition::parse_error;
    MC_TRUE("condition category name",string(cond.category().name())=="boost.url"); MC_TRUE("condition message is empty",!cond.message().empty());
    for(size_t i=0;i<sizeof all/sizeof all[0];++i)
    {
        ctx="error code "+std::to_string(int(all[i])); bu::error_code ec=all[i]; bu::error_code e2=make_error_code(all[i]);
        MC_TRUE("category name",string(ec.category().name())=="boost.url"); MC_NUM("value",ec.value(),int(all[i])); MC_TRUE("value is 0",ec.value()!=0); MC_TRUE("tests as success",bool(ec)); MC_TRUE("equals success",ec!=none);
        MC_TRUE("message is empty",!ec.message().empty()); MC_TRUE("implicit conversion and make_error_code differ",ec==e2); MC_TRUE("category is not unique",&ec.category()==&e2.category());
        MC_TRUE("is not condition::parse_error",ec==cond); MC_TRUE("is not condition::parse_error",ec==bu::condition::parse_error); MC_TRUE("comparison with the enumerator",ec==all[i]);
        for(size_t j=0;j<sizeof all/sizeof all[0];++j) MC_NUM("equality of codes "+std::to_string(i)+" and "+std::to_string(j),ec==bu::error_code(all[j]),i==j);
        bu::system_error se(ec); MC_TRUE("system_error does not carry the code",se.code()==ec); mc::transitions(12);
    }
    ctx="other codes";
    MC_TRUE("success equals parse_error",none!=cond); for(int v=1;v<140;++v){ bu::error_code g(v,bu::generic_category()); MC_TRUE("a generic code equals parse_error",g!=cond); bu::error_code s(v,make_error_code(bu::error::syntax).category()); MC_NUM("code "+std::to_string(v)+" of the library's category equals parse_error",s==cond,v<=15); mc::transitions(2); }
    mc::visit("codes"); mc::traces(); mc::outcome("error code tables");
}
static int kp=mc::add_kind("parse",parse), kc=mc::add_kind("call",callk), km=mc::add_kind("missing",missing), ke=mc::add_kind("codes",codes);
void mc::setup()
{
    using seq::step; using namespace ref;
    mc::add_job("error codes",1,[](size_t){ mc::run(ke); });
    inputs::add_all([](string const& s){ mc::run(kp,s); },tier(-2,-1));
    seq::add("every state x every call", ops::states(tier(0,1)), {step{ops::setters(2),2}}, kc);
    seq::add("every setter with spellings of what is there", ops::rich_states(), {step{ops::setters(2),2,true}}, kc);
    seq::add("every call on all combinations of short and long components", ops::wide_states(), {step{ops::setters(1),1}}, kc);
    ops::add_long("every call on states with a long component",thorough,tier(0,1),[](string const& st, ref::call const& c){ mc::run(kc,st,pack(c)); });
    static const int enc[]={o_scheme,o_origin,o_authority,o_userinfo,o_userinfo_part,o_enc_user,o_enc_password,o_password_part,o_enc_host,o_port,o_port_part,o_path,o_enc_query,o_query_part,o_enc_fragment,o_fragment_part,o_insert_enc};
    inputs::words("argument words",chars("a:/?#@%1.[]"),tier(3,4),[](string const& w){ for(auto s: {"","x://u:p@h:1/a?k=v#f"}) for(int o: enc) mc::run(kc,s,pack(call(o,w))); });
    inputs::framed("missing and present keys","?",chars("a=&"),tier(5,6),"",[](string const& s){ for(auto k: {"","a","aa","b"}) mc::run(km,s,k); });
    static const auto L=mc::lengths(1,tier(40,140),{64,65,128,256,257,1000,4096,65536});
    mc::add_job("good arguments of every length spoilt at the first, middle or last character",L.size(),[](size_t i){ string a(L[i],'1'); for(auto s: {"","x://u:p@h:1/a?k=v#f"}) for(int o: enc) { mc::run(kc,s,pack(call(o,a))); for(size_t p: {size_t(0),a.size()/2,a.size()-1}) for(char c: {'\0','%',' ','#'}) { string b=a; b[p]=c; mc::run(kc,s,pack(call(o,b))); } } string q="?"+a+"=1"; mc::run(km,q,a); mc::run(km,q,a+"1"); mc::run(km,q,a.substr(1)); });
    mc::add_job("keys without a query",1,[](size_t){ for(auto s: {"","x://h/a","#a=b","/a=b"}) for(auto k: {"","a"}) mc::run(km,s,k); });
}
