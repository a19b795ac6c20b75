// C24: distinct objects, and const use of one object, from different threads.
// Two real threads run under a controlled scheduler that sees every memory access (sched.hpp).
// Accesses that conflict without being ordered are reported; executions without such a pair
// differ only in the order of synchronisation operations, and those orders are enumerated.
#include "seq.hpp"
#include "sched.hpp"
#include <unistd.h>
#include <errno.h>
#include <sys/wait.h>
using namespace real;
typedef std::function<string()> job;
// both alone first (the expected results), then together under every schedule
static void both(std::function<job(int)> make, string const& ctx)
{
    // make(i) builds a fresh job for thread i together with the objects it works on
    // (the first execution of all is a concurrent one: nothing has been warmed up for it)
    string want[2]; bool have=false;
    struct S { int first; std::vector<uint64_t> sw; }; std::vector<S> todo={{0,{}},{1,{}}};
    size_t done=0, limit=size_t(mc::tier(60,400)); uint64_t acc=0; bool sync=false;
    while(done<todo.size()&&done<limit)
    {
        S s=todo[done++]; string got[2]; job j[2]={make(0),make(1)};
        std::function<void()> f0=[&]{ got[0]=j[0](); }, f1=[&]{ got[1]=j[1](); };
        sched::Report r=sched::run(f0,f1,s.first,s.sw);
        acc+=r.accesses; sync=sync||r.syncs;
        string c=ctx+(s.first?" (second thread first":" (first thread first"); for(auto x: s.sw) c+=", switched at synchronisation "+std::to_string(x); c+=")";
        if(r.race) mc::fail(r.what+" ["+c+"]");
        if(!have){ have=true; for(int i=0;i<2;++i) want[i]=make(i)(); }
        for(int i=0;i<2;++i) if(got[i]!=want[i]) mc::fail("thread "+std::to_string(i+1)+" sees "+quote(got[i])+", alone "+quote(want[i])+" ["+c+"]");
        // further schedules: one or two switches at synchronisation operations
        if(s.sw.empty()||(s.sw.size()<2&&r.syncs<=size_t(mc::tier(6,16)))) for(uint64_t n=s.sw.empty()?0:s.sw.back()+1;n<r.syncs;++n){ S t=s; t.sw.push_back(n); todo.push_back(t); }
        mc::transitions(); mc::traces();
    }
    if(done<todo.size()) mc::outcome("synchronising: schedules cut at the limit");
    mc::states(acc);
    mc::outcome(sync?"threads synchronise: orders enumerated":"no shared write: one equivalence class of schedules");
}
template<class V> static string look(V& v, int which)
{
    string r; auto add=[&](bu::string_view s){ r.append(s.data(),s.size()); r.push_back('\n'); };
    switch(which)
    {
    case 0: add(v.encoded_url()); add(v.encoded_origin()); add(v.scheme()); break;
    case 1: add(v.encoded_authority()); add(v.encoded_userinfo()); add(v.userinfo_part()); add(v.encoded_user()); add(v.encoded_password()); r+=v.has_authority()?"1":"0"; r+=v.has_userinfo()?"1":"0"; break;
    case 2: add(v.encoded_host()); add(v.encoded_host_and_port()); add(v.port()); add(v.port_part()); r+=std::to_string(int(v.host_type())); break;
    case 3: add(v.encoded_path()); add(v.encoded_query()); add(v.query_part()); add(v.encoded_fragment()); add(v.fragment_part()); break;
    case 4: r=v.user()+"\n"+v.password()+"\n"+v.host(); break;
    case 5: r=v.query()+"\n"+v.fragment(); break;
    case 6: { auto sg=v.segments(); r=std::to_string(sg.size())+(sg.empty()?"e":"n"); for(auto it=sg.begin(),e=sg.end();it!=e;++it){ add((*it).encoded_string()); r+=it->string(); } break; }
    case 7: { auto sg=v.segments(); auto b=sg.begin(), it=sg.end(); while(it!=b){ --it; add(it->encoded_string()); } break; }
    case 8: { auto pr=v.params(); r=std::to_string(pr.size())+(pr.empty()?"e":"n"); for(auto it=pr.begin(),e=pr.end();it!=e;++it){ add((*it).encoded_key()); r+=(*it).key(); r+=it->value(); } break; }
    case 9: { auto pr=v.params(); auto b=pr.begin(), it=pr.end(); while(it!=b){ --it; add(it->encoded_value()); } break; }
    case 10: { auto pr=v.params(); for(const char* k: {"","k","zz"}){ r+=std::to_string(pr.count(k))+(pr.contains(k)?"c":"-"); r+=pr[k]; auto it=pr.find(k); if(it!=pr.end()) add(it->encoded_value()); try { r+=pr.at(k); } catch(bu::out_of_range const&){ r+="!"; } } break; }
    case 11: { std::allocator<char> al; r=v.user(al)+v.password(al)+v.host(al)+v.query(al)+v.fragment(al); break; }
    }
    return r;
}
static string look_url(bu::url const& v, int which)
{
    if(which<12) return look(v,which);
    switch(which)
    {
    case 12: { bu::url c(v); return string(tosv(c.encoded_url()))+std::to_string(c.segments().size()); }
    case 13: { bu::url c(bv("x://y/z?a&b#c")); c=v; return string(tosv(c.encoded_url()))+std::to_string(c.params().size()); }
    case 14: { bu::url_view w(v.encoded_url()); return look(w,1)+look(w,6); }
    default: return string(v.data(),v.size())+std::to_string(v.capacity()>=v.size())+string(tosv(v.password_part()));
    }
}
enum { n_url=16, n_view=12 };
static void shared_url(mc::Args const& a) // url, observer, observer[, call before]
{
    std::unique_ptr<bu::url> v(new bu::url(bv(a[0]))); int o[2]={int(a.num(1)),int(a.num(2))}; size_t ret;
    if(a.n>3) do_call(*v,unpack(a[3]),ret);
    bu::url const& c=*v;
    both([&](int i)->job { int w=o[i]; bu::url const* p=&c; return [p,w]{ return look_url(*p,w); }; },"two threads observe one url "+quote(tosv(c.encoded_url()))+": observers "+a.s(1)+" and "+a.s(2));
    mc::visit(a.s(0)+"\n"+a.s(1)+"\n"+a.s(2)+(a.n>3?a.s(3):""));
}
static void shared_view(mc::Args const& a)
{
    string text=a.s(0); std::unique_ptr<bu::url_view> v(new bu::url_view(bv(text))); int o[2]={int(a.num(1)),int(a.num(2))};
    bu::url_view const* p=v.get(); string const* t=&text;
    both([&](int i)->job { int w=o[i]; if(w==n_view) return [t]{ bu::url_view x(bv(*t)); return look(x,2)+look(x,8); }; if(w==n_view+1) return [p]{ bu::url_view x(*p), y; y=x; return look(y,0)+look(y,6); }; return [p,w]{ return look(*p,w); }; },"two threads observe one url_view of "+quote(text)+": observers "+a.s(1)+" and "+a.s(2));
    mc::visit("v"+a.s(0)+"\n"+a.s(1)+"\n"+a.s(2));
}
static string modify(bu::url& v, call const& c)
{
    size_t ret=0; res r=do_call(v,c,ret);
    return string(res_name(r))+" "+string(tosv(v.encoded_url()))+" "+std::to_string(v.segments().size())+" "+std::to_string(v.params().size())+" "+std::to_string(int(v.host_type()))+" "+std::to_string(ret);
}
static void distinct(mc::Args const& a) // url, call, url, call
{
    call c[2]={unpack(a[1]),unpack(a[3])}; string s[2]={a.s(0),a.s(2)};
    both([&](int i)->job { auto t=std::make_shared<string>(s[i]); auto cc=std::make_shared<call>(c[i]); return [t,cc]{ bu::url v(bv(*t)); return modify(v,*cc); }; },"two threads, two urls: "+quote(s[0])+"."+describe(c[0])+" | "+quote(s[1])+"."+describe(c[1]));
    mc::visit(a.s(0)+"\n"+a.s(1)+"\n"+a.s(2)+"\n"+a.s(3));
}
// one thread modifies its url, the other observes another one / uses the free functions
static string freefn(int w)
{
    string r;
    switch(w)
    {
    case 0: for(const char* s: {"http","HTTPS","x","","wss"}) { r+=std::to_string(int(bu::string_to_scheme(s)))+(bu::is_special(s)?"s":"-"); r.append(tosv(bu::to_string(bu::string_to_scheme(s)))); } break;
    case 1: for(const char* s: {"%","//[","x://h/p"}) { try { bu::url_view v{bu::string_view(s)}; r+=std::to_string(v.size()); } catch(std::exception const& e){ r+=e.what(); } } break;
    case 2: for(int i=1;i<12;++i){ bu::error_code ec(static_cast<bu::error>(i)); r+=ec.message()+(ec==bu::condition::parse_error?"p":"-")+ec.category().name(); } break;
    case 3: { auto p=std::make_shared<bu::static_pool<256>>(); bu::basic_url<bu::basic_static_pool::allocator_type<char>> u(p->allocator()); u.set_host("a b"); u.set_port(8080); try { u.set_encoded_fragment(string(300,'a').c_str()); } catch(std::bad_alloc const&){ r+="!"; } r.append(tosv(u.encoded_url())); break; }
    default: { bu::url u; u.set_user("u").set_port(65535); u.normalize(); r.assign(tosv(u.encoded_url())); }
    }
    return r;
}
enum { n_free=5 };
static void mixed(mc::Args const& a) // url, call, what the other thread does
{
    call c=unpack(a[1]); string s=a.s(0); int w=int(a.num(2)); 
    std::unique_ptr<bu::url> other(new bu::url(bv("x://u:p@h:1/a/b?k=v&l=%41#f"))); bu::url const* o=other.get();
    both([&](int i)->job { if(i==1) return [w,o]{ return w<n_free?freefn(w):look_url(*o,w-n_free); }; auto t=std::make_shared<string>(s); auto cc=std::make_shared<call>(c); return [t,cc]{ bu::url v(bv(*t)); return modify(v,*cc); }; },"one thread "+quote(s)+"."+describe(c)+" | the other observes a second url or calls free functions, case "+a.s(2));
    mc::visit("m"+a.s(0)+"\n"+a.s(1)+"\n"+a.s(2));
}
static void frees(mc::Args const& a){ int w[2]={int(a.num(0)),int(a.num(1))}; both([&](int i)->job { int x=w[i]; return [x]{ return freefn(x); }; },"two threads in free functions "+a.s(0)+" and "+a.s(1)); mc::visit("f"+a.s(0)+a.s(1)); }
// cold start: a process in which the library has not run yet, so that whatever is set up on
// first use is set up by the two threads
static std::vector<job> cold_jobs()
{
    std::vector<job> r; for(int w=0;w<n_free;++w) r.push_back([w]{ return freefn(w); });
    for(int w=0;w<n_url;++w) r.push_back([w]{ bu::url v(bv("x://u:p@h:1/a/b?k=v&l=%41#f")); return look_url(v,w); });
    for(int w=0;w<n_view;++w) r.push_back([w]{ bu::url_view v(bv("//1.2.3.4/%41/b?k=v&&l#f")); return look(v,w); });
    for(auto& c: ops::setters(1)) { if(c.o==ref::o_portnum&&c.i!=80) continue; r.push_back([c]{ bu::url v(bv("//h/a?k#f")); return modify(v,c); }); }
    for(auto& c: ops::edits(2,0)) r.push_back([c]{ bu::url v(bv("//h/a/b?k#f")); return modify(v,c); });
    return r;
}
static void cold(mc::Args const& a)
{
    int fd[2]; if(pipe(fd)) mc::fail("harness: pipe");
    static const std::vector<job> J=cold_jobs(); size_t x=size_t(a.num(0)), y=size_t(a.num(1));
    pid_t p=fork(); if(p<0) mc::fail("harness: fork");
    if(p==0)
    {
        close(fd[0]); alarm(30); string m="ok";
        try { both([&](int i)->job { return J[i?y:x]; },"first use of the library in the process, by two threads: cases "+a.s(0)+" and "+a.s(1)); } catch(mc::Fail const& f){ m=f.msg; } catch(std::exception const& e){ m=string("unexpected exception ")+e.what(); }
        if(m.size()>2000) m.resize(2000); ssize_t z=write(fd[1],m.data(),m.size()); (void)z; _exit(0);
    }
    close(fd[1]); string m; char b[512]; ssize_t n; while((n=read(fd[0],b,sizeof b))>0||(n<0&&errno==EINTR)) if(n>0) m.append(b,size_t(n)); close(fd[0]); int st=0; while(waitpid(p,&st,0)<0&&errno==EINTR){}
    if(m!="ok") mc::fail(m.empty()?"the process died on the first use of the library by two threads, cases "+a.s(0)+" and "+a.s(1):m);
    mc::visit("c"+a.s(0)+"\n"+a.s(1)); mc::transitions(2); mc::traces(); mc::outcome("cold start");
}
static int k0=mc::add_kind("cold start",cold);
static int k1=mc::add_kind("one url",shared_url), k2=mc::add_kind("one view",shared_view), k3=mc::add_kind("two urls",distinct), k4=mc::add_kind("mixed",mixed), k5=mc::add_kind("free functions",frees);
void mc::setup()
{
    mc::format_arg=[](size_t,sv s){ return s.size()>=pack_size&&(unsigned char)s[0]<32&&s[0]?describe(unpack(s)):quote(s); };
    static const size_t nc=cold_jobs().size();
    mc::add_job("first use of the library, every pair of operations",nc,[](size_t i){ for(size_t j=0;j<nc;++j) if(thorough||j>=i) mc::run(k0,std::to_string(i),std::to_string(j)); });
    mc::add_job("free functions",1,[](size_t){ for(int i=0;i<n_free;++i) for(int j=0;j<n_free;++j) mc::run(k5,std::to_string(i),std::to_string(j)); });
    auto st=std::make_shared<strings>(ops::states(tier(0,1)));
    strings few=ops::few_states(); auto fp=std::make_shared<strings>(few);
    mc::add_job("every URL, both threads in the same observer",st->size(),[st](size_t i){ for(int x=0;x<n_url;++x) mc::run(k1,(*st)[i],std::to_string(x),std::to_string(x)); for(int x=0;x<n_view+2;++x) mc::run(k2,(*st)[i],std::to_string(x),std::to_string(x)); });
    auto pp=st;
    mc::add_job("every pair of observers of one url",pp->size(),[pp](size_t i){ for(int x=0;x<n_url;++x) for(int y=x;y<n_url;++y) mc::run(k1,(*pp)[i],std::to_string(x),std::to_string(y)); });
    mc::add_job("every pair of observers of one url_view",pp->size(),[pp](size_t i){ for(int x=0;x<n_view+2;++x) for(int y=x;y<n_view+2;++y) mc::run(k2,(*pp)[i],std::to_string(x),std::to_string(y)); });
    mc::add_job("every pair of modifications of two urls",few.size()*8,[fp](size_t sh)
    {
        string const& s=(*fp)[sh/8]; U u; ref::parse(s,u); ops::calls cs=ops::all(u,ops::setters(tier(0,1)),0);
        string t="x://u:p@h:1/a/b?k=v#f"; U tu; ref::parse(t,tu); ops::calls ds=ops::all(tu,ops::setters(0),0);
        for(size_t i=sh%8;i<cs.size();i+=8) { mc::run(k3,s,pack(cs[i]),s,pack(cs[i])); for(size_t j=0;j<ds.size();++j) mc::run(k3,s,pack(cs[i]),t,pack(ds[j])); }
    });
    mc::add_job("a modification against every observer and free function",few.size()*4,[fp](size_t sh)
    {
        string const& s=(*fp)[sh/4]; U u; ref::parse(s,u); ops::calls cs=ops::all(u,ops::setters(tier(1,2)),tier(0,1));
        for(size_t i=sh%4;i<cs.size();i+=4) for(int w=0;w<n_free+n_url;++w) mc::run(k4,s,pack(cs[i]),std::to_string(w));
    });
    mc::add_job("every url after every call, observed by two threads",few.size()*4,[fp](size_t sh)
    {
        string const& s=(*fp)[sh/4]; U u; ref::parse(s,u); ops::calls cs=ops::all(u,ops::setters(tier(1,2)),tier(0,1));
        for(size_t i=sh%4;i<cs.size();i+=4) for(int w=0;w<n_url;++w) mc::run(k1,s,std::to_string(w),std::to_string(w),pack(cs[i]));
    });
}
