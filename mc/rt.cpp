#include "rt.hpp"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <stdlib.h>
#include <map>
#include <fstream>
#include <iostream>
#include <sstream>
#include <exception>

namespace mc {
bool thorough=false;
string (*format_arg)(size_t,sv)=nullptr;
namespace {
struct KindT { const char* name; Handler h; };
std::vector<KindT>& kinds(){ static std::vector<KindT> k; return k; }
struct JobT { string name; size_t shards; std::function<void(size_t)> fn; };
std::vector<JobT>& jobs(){ static std::vector<JobT> j; return j; }

enum { max_workers=16, max_arg=24, max_bytes=1<<19, n_out=256 };
struct Slot
{
    std::atomic<uint64_t> beat;
    uint64_t cases, states, trans, traces;
    int job; uint64_t shard;
    int kind; int depth; uint32_t nargs; uint32_t len[max_arg]; char bytes[max_bytes];
    bool truncated;
    int failed; char msg[4096];
};
struct Shared
{
    std::atomic<uint64_t> next; std::atomic<int> stop;
    std::atomic<uint64_t> nsample; char sample[64][400];
    std::atomic<uint64_t> outc[n_out];
    Slot slot[max_workers];
};
Shared* sh; Slot* me; bool replay_mode=false;
std::atomic<uint64_t> kind_samples[256]; // per process
}
string quote(sv s)
{
    string r="\"";
    if(s.size()>240) return quote(s.substr(0,120))+"...("+std::to_string(s.size())+" bytes)..."+quote(s.substr(s.size()-60));
    for(unsigned char c: s){ if(c>=32&&c<127&&c!='"'&&c!='\\') r.push_back(char(c)); else { char b[8]; snprintf(b,8,"\\x%02x",c); r+=b; } }
    return r+"\"";
}
void fail(string msg){ throw Fail{msg}; }
int add_kind(const char* name, Handler h){ kinds().push_back({name,h}); return int(kinds().size()-1); }
void add_job(const char* name,size_t n,std::function<void(size_t)> fn){ jobs().push_back({name,n,fn}); }
void states(uint64_t n){ me->states+=n; }
void transitions(uint64_t n){ me->trans+=n; }
void traces(uint64_t n){ me->traces+=n; }
// distinct states: a bit per hash in a shared bitmap (collisions only undercount)
namespace { std::atomic<uint64_t>* seen; const uint64_t seen_bits=uint64_t(1)<<31; }
bool visit(sv v)
{
    uint64_t h=0x9E3779B97F4A7C15ull^(v.size()*0xff51afd7ed558ccdull); size_t i=0;
    auto mix=[&](uint64_t x){ h^=x; h*=0xff51afd7ed558ccdull; h^=h>>29; h*=0xc4ceb9fe1a85ec53ull; h^=h>>32; };
    for(;i+8<=v.size();i+=8){ uint64_t x; memcpy(&x,v.data()+i,8); mix(x); }
    uint64_t x=0x100; for(;i<v.size();++i) x=x<<8|(unsigned char)v[i]; mix(x);
    uint64_t b=h%seen_bits, m=uint64_t(1)<<(b%64);
    auto& w=seen[b/64];
    if(w.load(std::memory_order_relaxed)&m) return false;
    if(w.fetch_or(m,std::memory_order_relaxed)&m) return false;
    ++me->states; return true;
}
bool stopping(){ return sh->stop.load(std::memory_order_relaxed)!=0; }
bool replaying(){ return replay_mode; }
// histogram: names live in shared memory, found by content hash
namespace { struct OutName { std::atomic<int> used; char name[60]; }; OutName* outn; }
void outcome(const char* lit,uint64_t n)
{
    uint64_t h=1469598103934665603ull; for(const char* p=lit;*p;++p) h=(h^(unsigned char)*p)*1099511628211ull;
    for(unsigned i=0;i<n_out;++i)
    {
        unsigned k=(h+i)%n_out; int e=0;
        if(outn[k].used.load()==2){ if(!strcmp(outn[k].name,lit)){ sh->outc[k].fetch_add(n,std::memory_order_relaxed); return; } continue; }
        if(outn[k].used.compare_exchange_strong(e,1)){ strncpy(outn[k].name,lit,59); outn[k].used=2; sh->outc[k]+=n; return; }
        while(outn[k].used.load()==1) {}
        --i;
    }
}
static string describe(const char* kind, std::vector<string> const& a)
{
    string d=kind; size_t i=0; for(auto& s:a){ d+=" "+(format_arg?format_arg(i,s):quote(s)); ++i; } return d;
}
void run_case(int kind, Args const& a)
{
    Slot& s=*me;
    s.depth=1; s.kind=kind; s.nargs=uint32_t(a.n); s.truncated=false;
    size_t o=0;
    for(size_t i=0;i<a.n;++i)
    {
        size_t l=a.a[i].size(); if(o+l>max_bytes){ l=max_bytes-o; s.truncated=true; }
        memcpy(s.bytes+o,a.a[i].data(),l); s.len[i]=uint32_t(l); o+=l;
    }
    s.beat.fetch_add(1,std::memory_order_relaxed);
    ++s.cases;
    uint64_t c=kind_samples[kind].fetch_add(1);
    if(c==1||c==777||c==50021)
    {
        uint64_t k=sh->nsample.fetch_add(1);
        if(k<64){ std::vector<string> v; for(size_t i=0;i<a.n;++i) v.push_back(a.s(i)); string d=describe(kinds()[kind].name,v); snprintf(sh->sample[k],400,"%s",d.c_str()); }
    }
    try { kinds()[kind].h(a); }
    catch(Fail const& f)
    {
        snprintf(s.msg,sizeof s.msg,"%s",f.msg.c_str()); s.failed=1; sh->stop=1;
        if(replay_mode){ fprintf(stdout,"FAIL %s\n",s.msg); fflush(stdout); _exit(1); }
        _exit(9);
    }
    catch(std::exception const& e)
    {
        snprintf(s.msg,sizeof s.msg,"unexpected exception escaped: %s",e.what()); s.failed=1; sh->stop=1;
        if(replay_mode){ fprintf(stdout,"FAIL %s\n",s.msg); fflush(stdout); _exit(1); }
        _exit(9);
    }
    s.depth=0;
}
namespace {
double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
string hex(sv s){ static const char H[]="0123456789abcdef"; string r; for(unsigned char c:s){ r.push_back(H[c>>4]); r.push_back(H[c&15]); } return r; }
string unhex(string const& s){ string r; auto v=[](char c){ return c<='9'?c-'0':c-'a'+10; }; for(size_t i=0;i+1<s.size();i+=2) r.push_back(char(v(s[i])*16+v(s[i+1]))); return r; }
std::vector<string> slot_args(Slot& s){ std::vector<string> v; size_t o=0; for(uint32_t i=0;i<s.nargs;++i){ v.push_back(string(s.bytes+o,s.len[i])); o+=s.len[i]; } return v; }
void clean_slot(Slot& s){ s.beat=0; s.cases=s.states=s.trans=s.traces=0; s.failed=0; s.depth=0; s.job=-1; s.msg[0]=0; }

#if defined(__SANITIZE_ADDRESS__)
void limits(){}
#else
void limits(){ rlimit r; r.rlim_cur=r.rlim_max=rlim_t(3)<<30; setrlimit(RLIMIT_AS,&r); } // a runaway allocation becomes bad_alloc
#endif
struct Task { int job; size_t shard; };
std::vector<Task> tasks;

void worker(int w, long only)
{
    me=&sh->slot[w];
    limits();
    for(;;)
    {
        if(stopping()) break;
        uint64_t t= only>=0 ? uint64_t(only) : sh->next.fetch_add(1);
        if(t>=tasks.size()) break;
        me->job=tasks[t].job; me->shard=tasks[t].shard;
        try { jobs()[tasks[t].job].fn(tasks[t].shard); }
        catch(Fail const& f){ snprintf(me->msg,sizeof me->msg,"%s",f.msg.c_str()); me->failed=1; sh->stop=1; _exit(9); }
        catch(std::exception const& e){ snprintf(me->msg,sizeof me->msg,"harness: unexpected exception: %s",e.what()); me->failed=1; sh->stop=1; _exit(9); }
        me->beat.fetch_add(1);
        if(only>=0) break;
    }
    _exit(0);
}
// 0 clean, 1 failed/crashed, 2 hung, 3 killed from outside
struct End { int how; string why; };
End watch(std::vector<pid_t>& pid, double limit)
{
    size_t left=pid.size(); std::vector<uint64_t> last(pid.size(),~0ull); std::vector<double> when(pid.size(),now());
    End e{0,""};
    while(left)
    {
        int st; pid_t p=waitpid(-1,&st,WNOHANG);
        if(p<=0)
        {
            usleep(2000);
            for(size_t i=0;i<pid.size();++i) if(pid[i]>0)
            {
                uint64_t b=sh->slot[i].beat.load();
                if(b!=last[i]){ last[i]=b; when[i]=now(); }
                else if(now()-when[i]>limit)
                {
                    kill(pid[i],SIGKILL); waitpid(pid[i],&st,0); pid[i]=-1; --left; sh->stop=1;
                    if(e.how==0){ e.how=2; e.why="no progress within the time limit"; sh->slot[i].failed=2; snprintf(sh->slot[i].msg,4096,"hang: no progress for %.0f s",limit); }
                }
            }
            continue;
        }
        for(size_t i=0;i<pid.size();++i) if(pid[i]==p)
        {
            pid[i]=-1; --left;
            if(WIFEXITED(st)&&WEXITSTATUS(st)==0) break;
            sh->stop=1;
            Slot& s=sh->slot[i];
            if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL){ if(e.how!=1){ e.how=3; e.why="worker killed (out of memory?)"; } break; }
            if(!s.failed){ s.failed=1; 
                if(WIFSIGNALED(st)) snprintf(s.msg,4096,"crash: signal %d (%s)",WTERMSIG(st),strsignal(WTERMSIG(st)));
                else snprintf(s.msg,4096,"crash: process exited with status %d (sanitizer report or exit)",WEXITSTATUS(st)); }
            if(e.how==0||e.how==2){ e.how=1; e.why=s.msg; }
            break;
        }
    }
    return e;
}
string jstr(string const& s){ string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r.push_back('\\'); r.push_back(char(c)); } else if(c<32||c>=127){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r.push_back(char(c)); } return r+"\""; }
}
}
using namespace mc;

// exit: 0 ok, 1 violation (details on stdout as MC-... lines), 2 error
int main(int argc,char** argv)
{
    string out,replay,repfile="/dev/null"; int workers=8; long only=-1; double hang=30;
    for(int i=1;i<argc;++i)
    {
        string a=argv[i]; auto val=[&]{ return i+1<argc?string(argv[++i]):string(); };
        if(a=="--thorough") thorough=true;
        else if(a=="--out") out=val();
        else if(a=="--workers") workers=atoi(val().c_str());
        else if(a=="--replay") replay=val();
        else if(a=="--replay-out") repfile=val();
        else if(a=="--task") only=atol(val().c_str());
        else if(a=="--hang") hang=atof(val().c_str());
        else { fprintf(stderr,"bad option %s\n",a.c_str()); return 2; }
    }
    if(workers>max_workers) workers=max_workers;
    void* m=mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    void* m2=mmap(nullptr,sizeof(OutName)*n_out,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if(m==MAP_FAILED||m2==MAP_FAILED){ perror("mmap"); return 2; }
    void* m3=mmap(nullptr,seen_bits/8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(m3==MAP_FAILED){ perror("mmap"); return 2; }
    seen=static_cast<std::atomic<uint64_t>*>(m3);
    sh=static_cast<Shared*>(m); outn=static_cast<OutName*>(m2);
    for(int i=0;i<max_workers;++i) clean_slot(sh->slot[i]);
    me=&sh->slot[0];
    if(!replay.empty())
    {
        // replay file: lines "kind NAME" "arg HEX" ... or "task N tier"
        std::ifstream f(replay); string k,v; int kind=-1; std::vector<string> a; long task=-1;
        while(f>>k)
        {
            if(k=="kind"){ f>>v; for(size_t i=0;i<kinds().size();++i) if(v==kinds()[i].name) kind=int(i); }
            else if(k=="arg"){ std::getline(f,v); size_t b=v.find_first_not_of(' '); a.push_back(b==string::npos?string():unhex(v.substr(b))); }
            else if(k=="task"){ f>>task; }
            else if(k=="thorough"){ thorough=true; }
            else std::getline(f,v);
        }
        if(task>=0) only=task;
        else
        {
            if(kind<0){ fprintf(stderr,"replay: unknown kind\n"); return 2; }
            replay_mode=true;
            pid_t p=fork();
            if(p==0)
            {
                Args x; for(auto& s:a) if(x.n<24) x.a[x.n++]=s;
                limits(); run_case(kind,x); _exit(0);
            }
            std::vector<pid_t> v2{p}; End e=watch(v2,hang);
            if(e.how==0){ printf("REPLAY OK (case passes)\n"); return 0; }
            if(e.how==3){ printf("REPLAY KILLED\n"); return 2; }
            printf("REPLAY FAIL %s\n",sh->slot[0].msg); return 1;
        }
    }
    double t0=now();
    setup();
    for(size_t j=0;j<jobs().size();++j) for(size_t s=0;s<jobs()[j].shards;++s) tasks.push_back({int(j),s});
    if(only>=0){ workers=1; }
    std::cout.flush(); fflush(stdout);
    std::vector<pid_t> pid;
    for(int w=0;w<workers;++w){ pid_t p=fork(); if(p==0) worker(w,only); pid.push_back(p); }
    End e=watch(pid,hang);
    uint64_t c=0,s=0,t=0,tr=0;
    for(int w=0;w<workers;++w){ c+=sh->slot[w].cases; s+=sh->slot[w].states; t+=sh->slot[w].trans; tr+=sh->slot[w].traces; }
    if(!out.empty())
    {
        std::ofstream o(out);
        o<<"{\"cases\":"<<c<<",\"states\":"<<s<<",\"transitions\":"<<t<<",\"traces\":"<<tr<<",\"tasks\":"<<tasks.size()<<",\"complete\":"<<(e.how==0?"true":"false")<<",\"seconds\":"<<now()-t0<<",\"outcomes\":{";
        bool first=true; for(int k=0;k<n_out;++k) if(outn[k].used==2){ o<<(first?"":",")<<jstr(outn[k].name)<<":"<<sh->outc[k].load(); first=false; }
        o<<"},\"jobs\":["; for(size_t j=0;j<jobs().size();++j) o<<(j?",":"")<<jstr(jobs()[j].name);
        o<<"],\"samples\":["; for(uint64_t k=0;k<sh->nsample&&k<64;++k) o<<(k?",":"")<<jstr(sh->sample[k]);
        o<<"]}\n";
    }
    printf("MC cases=%llu states=%llu transitions=%llu traces=%llu seconds=%.1f\n",(unsigned long long)c,(unsigned long long)s,(unsigned long long)t,(unsigned long long)tr,now()-t0);
    if(e.how==0) return 0;
    if(e.how==3){ printf("MC-ERROR %s\n",e.why.c_str()); return 2; }
    // report the failing case (lowest failing worker slot with a recorded case)
    for(int w=0;w<workers;++w) if(sh->slot[w].failed)
    {
        Slot& sl=sh->slot[w];
        std::vector<string> a=slot_args(sl);
        long task=-1; for(size_t k=0;k<tasks.size();++k) if(tasks[k].job==sl.job&&tasks[k].shard==sl.shard) task=long(k);
        {
            std::ofstream o(repfile);
            o<<"# "<<(sl.job>=0?jobs()[sl.job].name:"?")<<" shard "<<sl.shard<<"\n# "<<sl.msg<<"\n";
            if(sl.depth){ o<<"# "<<describe(kinds()[sl.kind].name,a)<<"\n"; o<<"kind "<<kinds()[sl.kind].name<<"\n"; for(auto& x:a) o<<"arg "<<hex(x)<<"\n"; }
            else o<<"task "<<task<<"\n";
            if(thorough) o<<"thorough\n";
        }
        { std::ofstream o(repfile+".task"); o<<"task "<<task<<"\n"; if(thorough) o<<"thorough\n"; }
        printf("MC-FAIL %s%s :: %s\n",e.how==2?"(hang) ":"",sl.depth?describe(kinds()[sl.kind].name,a).c_str():"(outside a case)",sl.msg);
        return 1;
    }
    printf("MC-ERROR no failing slot\n");
    return 2;
}
