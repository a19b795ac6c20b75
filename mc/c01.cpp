// C01: accepted exactly when RFC 3986 allows it; three entry points agree.
#include "real.hpp"
#include "inputs.hpp"
using namespace real;

// mode bits: what was accepted
static int entry(int which, sv s)
{
    try
    {
        if(which==0) { bu::url_view v(bv(s)); return 1; }
        if(which==1) { bu::url v(bv(s)); return 1; }
        static string const base="x://h/p";
        bu::url v(bv(base)); v.set_encoded_url(bv(s)); return 1;
    }
    catch(bu::invalid_part const&){ return 0; }
    catch(std::exception const&){ return 2; }
}
static void parse_case(mc::Args const& a)
{
    string s=a.s(0); U u;
    int want=ref::parse(s,u);
    static const char* const n[]={"url_view(s)","url(s)","set_encoded_url(s)"};
    for(int w=0;w<3;++w)
    {
        int got=entry(w,a[0]);
        if(got!=want) mc::fail(string(n[w])+(got==1?" accepts ":got==0?" refuses ":" throws something other than invalid_part for ")+quote(s)+", the grammar "+(want?"allows":"does not allow")+" it");
    }
    mc::visit(a[0]); mc::transitions(3); mc::traces();
    mc::outcome(want?"accepted":"refused");
}
static int k_parse=mc::add_kind("parse",parse_case);
void mc::setup(){ inputs::add_all([](string const& s){ mc::run(k_parse,s); },mc::tier(0,1)); }
