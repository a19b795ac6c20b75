// C17: copies and assignments are equal, independent values.
// Blocks are tracked and overwritten when freed, so any sharing shows up as changed text.
#include "seq.hpp"
using namespace real;
// builds the object described by (initial url, packed calls...)
static void build(turl& v, mc::Args const& a, size_t from, size_t to)
{
    for(size_t i=from;i<to;++i)
    {
        call c=unpack(a[i]); size_t ret=0; if(c.o==ref::o_assign) continue;
        if(ref::is_segment_op(c.o)){ size_t n=v.segments().size(); bool ins=c.o==ref::o_insert||c.o==ref::o_insert_enc; if(c.i>n||(c.i==n&&!ins&&c.o!=ref::o_erase_range)||(c.o==ref::o_erase_range&&c.j>n)) continue; }
        do_call(v,c,ret);
    }
}
static void chk(turl& v, U const& u, string const& ctx){ cmp_both(v,u,ctx,w_all,false); trk().check(); if(v.size()) MC_TRUE("the text is not in a live block",trk().owns(v.data(),v.size()+1)); }
static const call mods[]={call(ref::o_url,"z://y"),call(ref::o_url,""),call(ref::o_enc_fragment,"a-long-fragment-that-needs-more-room-than-there-is"),call(ref::o_scheme,"q"),call(ref::o_enc_host,"other"),call(ref::o_enc_query,"m=n&o"),call(ref::o_normalize,"")};
static void copy(mc::Args const& a) // source url, destination url, packed calls building the source
{
    U s,d; if(!ref::parse(a.s(1),d)) mc::fail("harness");
    string ctx=seq::history(a,0)+" (destination "+quote(a[1])+")"; for(size_t i=2;i<a.n;++i) ctx+="."+describe(unpack(a[i]));
    // which: 0 copy-construct, 1 move-construct, 2 copy-assign, 3 assign to a default-constructed one, 4 self-assign
    for(int which=0;which<5;++which) for(size_t m=0;m<=sizeof mods/sizeof mods[0];++m) for(int side=0;side<2;++side)
    {
        if(m==sizeof mods/sizeof mods[0]&&side) continue;
        trk().reset();
        {
            std::unique_ptr<turl> src(new turl(bv(a[0]),talloc<char>(1))); build(*src,a,2,a.n);
            string text(tosv(src->encoded_url())); if(!ref::parse(text,s)) return; // C06
            std::unique_ptr<turl> dst; string c=ctx;
            switch(which)
            {
            case 0: dst.reset(new turl(*src)); c+=" copy-constructed"; break;
            case 1: dst.reset(new turl(std::move(*src))); c+=" move-constructed"; break;
            case 2: dst.reset(new turl(bv(a[1]),talloc<char>(2))); { turl& r=(*dst=*src); MC_TRUE("operator= does not return *this",&r==dst.get()); } c+=" copy-assigned"; break;
            case 3: dst.reset(new turl(talloc<char>(3))); *dst=*src; c+=" copy-assigned to an empty one"; break;
            case 4: { turl& r=*src; *src=r; c+=" self-assigned"; break; }
            }
            mc::transitions();
            if(which==4){ chk(*src,s,c); MC_EQ("URL after self-assignment",src->encoded_url(),text); if(m==0&&side==0) mc::outcome("self-assignment"); continue; }
            chk(*dst,s,c+": destination"); if(which!=1) chk(*src,s,c+": source");
            if(m<sizeof mods/sizeof mods[0])
            {
                // modify one, then destroy it; the other never notices
                std::unique_ptr<turl>& hit= side?src:dst; std::unique_ptr<turl>& other= side?dst:src; size_t ret; U hm=s; size_t nx;
                if(which==1&&side){ do_call(*hit,call(ref::o_url,"k://l/m?n#o"),ret); } // a moved-from URL can be given a new value
                ref::verdict w=ref::apply(hm,mods[m],nx); res r=do_call(*hit,mods[m],ret); mc::transitions();
                if(!(which==1&&side)){ MC_TRUE(string("modifying the ")+(side?"source":"destination")+" "+res_name(r),(r==r_ok)==(w==ref::v_ok)); chk(*hit,hm,c+" then "+describe(mods[m])); }
                if(!(which==1&&!side)) chk(*other,s,c+", then the other one "+describe(mods[m])); 
                hit.reset(); trk().check();
                if(!(which==1&&!side)) chk(*other,s,c+", then the other one destroyed");
                mc::outcome(which==0?"copy-constructed":which==1?"move-constructed":"copy-assigned");
            }
            else
            {
                // assign back from a third, chains
                turl third(bv(a[1]),talloc<char>(4)); *dst=third; chk(*dst,d,c+" then assigned another"); if(which!=1) chk(*src,s,c+" source after the destination was re-assigned");
                *src=*dst; chk(*src,d,c+" then assigned back"); *src=third; turl fourth(std::move(*src)); chk(fourth,d,c+" moved again"); *src=fourth; chk(*src,d,c+" moved-from one assigned"); mc::transitions(5); mc::outcome("chains");
            }
        }
        trk().check(); if(!trk().live.empty()) mc::fail("a block is never returned ["+ctx+"]");
    }
    // a failed copy leaves the destination unchanged and leaks nothing
    for(long k=0;k<4;++k)
    {
        trk().reset();
        {
            turl src(bv(a[0]),talloc<char>(1)); build(src,a,2,a.n); string text(tosv(src.encoded_url())); if(!ref::parse(text,s)) return;
            turl dst(bv(a[1]),talloc<char>(2)); bool threw=false; trk().fail_at=k; try { dst=src; } catch(std::bad_alloc const&){ threw=true; } trk().fail_at=-1;
            chk(dst,threw?d:s,ctx+(threw?" failed assignment":" assignment")); chk(src,s,ctx+" source of a failed assignment"); mc::transitions(); mc::outcome(threw?"assignment failed, unchanged":"assignment needed no allocation");
            if(!threw) k=99;
        }
        trk().check(); if(!trk().live.empty()) mc::fail("a block is never returned ["+ctx+"]");
    }
    mc::visit(a.s(0)+"\n"+a.s(1)+(a.n>2?"\n"+a.s(2):"")+(a.n>3?"\n"+a.s(3):"")); mc::traces();
}
static int k=mc::add_kind("copy",copy);
void mc::setup()
{
    using seq::step;
    mc::format_arg=[](size_t i,sv s){ return i<2?quote(s):describe(unpack(s)); };
    strings few=ops::few_states(); strings st=ops::states(tier(0,2)); auto fp=std::make_shared<strings>(few), sp=std::make_shared<strings>(st);
    mc::add_job("every pair of selected URLs",few.size(),[fp](size_t i){ for(auto& d: *fp) mc::run(k,(*fp)[i],d); });
    static const auto L=mc::lengths(1,tier(20,140),{31,32,33,63,64,65,127,128,255,256,257,1024,1025,4096,65535,65536});
    mc::add_job("URLs with a long component",L.size()*10,[](size_t sh){ string s=ops::long_states(L[sh/10])[sh%10]; for(string d: {string(""),string("x://u:p@h:1/a/b/c?k=v&l=m#f"),ops::long_states(L[sh/10])[(sh+3)%10]}) { mc::run(k,s,d); if(d.size()<40) mc::run(k,d,s); } });
    mc::add_job("every state over three destinations",st.size(),[sp](size_t i){ for(auto d: {"","x://u:p@h:1/a/b/c?k=v&l=m#f","a"}) mc::run(k,(*sp)[i],d); });
    mc::add_job("sources produced by one call",few.size()*4,[fp](size_t sh){ string const& s=(*fp)[sh/4]; U u; ref::parse(s,u); ops::calls cs=ops::all(u,ops::setters(thorough?2:1),0); for(size_t i=sh%4;i<cs.size();i+=4) for(auto d: {"","x://u:p@h:1/a?k=v#f"}) mc::run(k,s,d,pack(cs[i])); });
    mc::add_job("sources produced by two calls",few.size()*8,[fp](size_t sh){ string const& s=(*fp)[sh/8]; ops::calls cs=ops::setters(0); for(size_t i=sh%8;i<cs.size();i+=8) for(auto& c: cs){ if(!thorough&&(c.o!=ref::o_url&&c.o!=ref::o_enc_host&&c.o!=ref::o_path&&c.o!=ref::o_enc_query&&c.o!=ref::o_scheme)) continue; mc::run(k,s,"//d/e",pack(cs[i]),pack(c)); } });
}
