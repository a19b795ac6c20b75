// Exploration runtime: jobs (exhaustive enumerations) are cut into shards, the
// shards are executed by forked workers, every case is recorded in shared memory
// before it is run, so that a crash, failed assertion, sanitizer report or hang in
// the code under test is attributed to a case, replayed alone and then reported.
#ifndef MC_RT_HPP
#define MC_RT_HPP
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>
#include <string_view>
#include <atomic>
#include <cstring>
#include <cstdio>
#include <cstdint>

namespace mc {
using std::string;
typedef std::string_view sv;

struct Fail { string msg; };
[[noreturn]] void fail(string msg);

struct Args
{
    sv a[24]; size_t n=0;
    sv operator[](size_t i) const { return i<n?a[i]:sv(); }
    string s(size_t i) const { return string((*this)[i]); }
    long num(size_t i) const { return std::stol(s(i)); }
};
typedef void(*Handler)(Args const&);

// tiers
extern bool thorough;
inline int tier(int q,int t){ return thorough?t:q; }

int  add_kind(const char* name, Handler h);              // before main()
void add_job(const char* name, size_t shards, std::function<void(size_t)> fn);
void run_case(int kind, Args const& a);
template<class... S> inline void run(int kind, S const&... s)
{
    Args a; int dummy[]={0,(a.a[a.n++]=sv(s),0)...}; (void)dummy;
    run_case(kind,a);
}
// measured counters
void states(uint64_t n=1);
bool visit(sv state);          // counts a state the first time it is seen (hash bitmap, lower bound); true if new
void transitions(uint64_t n=1);
void traces(uint64_t n=1);
void outcome(const char* literal, uint64_t n=1); // literal: string literal, histogram key
bool stopping();
bool replaying();
string quote(sv s);
extern string (*format_arg)(size_t index, sv arg); // how case arguments are written out

// enumeration helpers ------------------------------------------------------
// all sequences of length len over an alphabet of k symbols; the shard is the index of the
// first `pre` symbols (k^pre shards), f gets the index vector
template<class F> inline void all_seq(unsigned k, unsigned len, std::vector<unsigned>& v, F const& f)
{
    if(v.size()==len){ f(v); return; }
    for(unsigned i=0;i<k;++i){ v.push_back(i); all_seq(k,len,v,f); v.pop_back(); if(stopping()) return; }
}
// every string over alphabet A of length 0..maxlen whose prefix class belongs to this shard.
// Shards: 1 + k*k: shard 0 = strings shorter than 2, shard 1+i*k+j = strings starting A[i]A[j].
inline size_t word_shards(size_t k){ return 1+k*k; }
template<class F> inline void all_words(const std::vector<string>& A, unsigned maxlen, size_t shard, F const& f)
{
    size_t k=A.size();
    if(shard==0){ f(string()); for(size_t i=0;i<k&&maxlen>=1;++i) f(A[i]); return; }
    if(maxlen<2) return;
    --shard;
    string buf=A[shard/k]+A[shard%k];
    struct R { const std::vector<string>& A; F const& f; void go(string& b,unsigned left){
        f(b); if(!left||stopping()) return;
        for(size_t i=0;i<A.size();++i){ size_t n=b.size(); b+=A[i]; go(b,left-1); b.resize(n); } } } r{A,f};
    r.go(buf,maxlen-2);
}
inline std::vector<string> chars(const char* s){ std::vector<string> v; for(;*s;++s) v.push_back(string(1,*s)); return v; }
// all byte strings of length n (n<=3), sharded by first byte (256 shards)
template<class F> inline void all_bytes(unsigned n, size_t shard, F const& f)
{
    if(n==0){ if(shard==0) f(string()); return; }
    string b(n,'\0'); b[0]=char(shard);
    if(n==1){ f(b); return; }
    for(unsigned i=0;i<256;++i){ b[1]=char(i);
        if(n==2){ f(b); continue; }
        for(unsigned j=0;j<256;++j){ b[2]=char(j); f(b); } if(stopping()) return; }
}
// every length from..all, then the listed ones
inline std::vector<size_t> lengths(size_t from,size_t all,std::initializer_list<size_t> more={})
{ std::vector<size_t> r; for(size_t n=from;n<=all;++n) r.push_back(n); for(size_t n: more) if(n>all) r.push_back(n); return r; }
void setup(); // defined by each check: registers the jobs
} // mc
#endif
