// Common support of the monitors: PRNG, result recording, case loop.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <unordered_set>
#include <algorithm>
#include <cstdarg>
#include <mpi.h>
#include <unistd.h>

// allocations of MPI's own start are not the library's
extern "C" void __lsan_disable() __attribute__((weak));
extern "C" void __lsan_enable() __attribute__((weak));

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }  // inclusive
  bool b(double p = 0.5) { return u() < p; }
  double gauss()
  {
    double a = u(), c = u();
    if(a < 1e-300) a = 1e-300;
    return sqrt(-2 * log(a)) * cos(6.283185307179586 * c);
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x7f4a7c15;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hash_d(uint64_t h, const double* p, int n)
{
  for(int i = 0; i < n; i++) {
    uint64_t w;
    memcpy(&w, p + i, 8);
    h = mix(h, w);
  }
  return h;
}
inline uint64_t hash_s(const std::string& s)
{
  uint64_t h = 14695981039346656037ULL;
  for(char c : s) { h ^= (unsigned char)c; h *= 1099511628211ULL; }
  return h;
}

// Results of one process
struct Rec {
  FILE* f = nullptr;
  long cur = -1;
  int rank = 0, nranks = 1;
  std::map<std::string, long> cnt;
  std::map<std::string, double> mx;
  std::unordered_set<uint64_t> dist;
  long evals = 0;
  long nviol = 0;
  int nsamples = 0;
  std::map<std::string, int> perkey;
  static std::string esc(const std::string& s)
  {
    std::string o;
    for(char c : s) {
      if(c == '"' || c == '\\') { o += '\\'; o += c; }
      else if(c == '\n') o += "\\n";
      else if((unsigned char)c < 32) o += ' ';
      else o += c;
    }
    return o;
  }
  void line(const std::string& s)
  {
    if(!f) return;
    fputs(s.c_str(), f);
    fputc('\n', f);
    fflush(f);
  }
  void begin(long k)
  {
    cur = k;
    char b[96];
    mute = false;
    snprintf(b, sizeof b, "{\"t\":\"begin\",\"case\":%ld}", k);
    line(b);
  }
  // one observed execution / evaluation of the oracle
  void eval(uint64_t h, bool nontrivial = true)
  {
    evals++;
    if(nontrivial) dist.insert(h);
  }
  void count(const std::string& k, long n = 1) { cnt[k] += n; }
  void maxv(const std::string& k, double v)
  {
    auto it = mx.find(k);
    if(it == mx.end()) mx[k] = v;
    else if(v > it->second) it->second = v;
  }
  void sample(const std::string& s)
  {
    if(nsamples++ < 6) line("{\"t\":\"sample\",\"case\":" + std::to_string(cur) + ",\"text\":\"" + esc(s) + "\"}");
  }
  bool mute = false;  // for the rest of the case: the workload left the domain in which anything is promised
  void viol(const std::string& key, const char* fmt, ...)
  {
    if(mute) { count("muted"); return; }
    nviol++;
    if(perkey[key]++ >= 3) return;
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if(getenv("HVERB")) { printf("VIOL %s %s\n", key.c_str(), b); fflush(stdout); }
    line("{\"t\":\"viol\",\"case\":" + std::to_string(cur) + ",\"key\":\"" + esc(key) + "\",\"msg\":\"" + esc(b) + "\"}");
  }
  void end()
  {
    std::string o = "{\"t\":\"end\",\"evals\":" + std::to_string(evals) + ",\"viols\":" + std::to_string(nviol) + ",\"cnt\":{";
    bool first = true;
    for(auto& p : cnt) {
      o += (first ? "" : ",");
      o += "\"" + esc(p.first) + "\":" + std::to_string(p.second);
      first = false;
    }
    o += "},\"max\":{";
    first = true;
    for(auto& p : mx) {
      char b[64];
      double v = std::isfinite(p.second) ? p.second : 1e308;
      snprintf(b, sizeof b, "%.6g", v);
      o += (first ? "" : ",");
      o += "\"" + esc(p.first) + "\":" + b;
      first = false;
    }
    o += "},\"dist\":[";
    first = true;
    for(auto h : dist) {
      o += (first ? "" : ",");
      o += std::to_string(h >> 12);
      first = false;
    }
    o += "]}";
    line(o);
  }
};
inline Rec& R()
{
  static Rec r;
  return r;
}

struct Args {
  uint64_t seed = 1;
  long from = 0, to = 1;
  std::string out, mode;
  bool verbose = false;
};
inline Args& A()
{
  static Args a;
  return a;
}

inline std::string fmt(const char* f, ...)
{
  char b[2000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline std::string vec2s(const double* p, int n)
{
  std::string o = "[";
  for(int i = 0; i < n && i < 12; i++) o += fmt(i ? ",%.6g" : "%.6g", p[i]);
  if(n > 12) o += ",...";
  return o + "]";
}
inline bool close(double a, double b, double rtol, double atol = 0)
{
  if(a == b) return true;
  if(std::isnan(a) && std::isnan(b)) return true;
  if(!std::isfinite(a) || !std::isfinite(b)) return false;
  return fabs(a - b) <= atol + rtol * std::max(fabs(a), fabs(b));
}

// main loop: one PRNG per case, derived from (seed, mode, case)
inline int run(int argc, char** argv, const std::function<void(Rng&, long, const std::string&)>& body, bool mpi = true)
{
  Args& a = A();
  for(int i = 1; i < argc; i++) {
    std::string s = argv[i];
    auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if(s == "--seed") a.seed = strtoull(nxt().c_str(), 0, 10);
    else if(s == "--from") a.from = atol(nxt().c_str());
    else if(s == "--to") a.to = atol(nxt().c_str());
    else if(s == "--out") a.out = nxt();
    else if(s == "--mode") a.mode = nxt();
    else if(s == "-v") a.verbose = true;
  }
  if(mpi) {
    int prov;
    if(__lsan_disable) __lsan_disable();
    MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
    MPI_Comm_rank(MPI_COMM_WORLD, &R().rank);
    MPI_Comm_size(MPI_COMM_WORLD, &R().nranks);
    if(__lsan_enable) __lsan_enable();
  }
  if(a.out.empty()) R().f = stderr;
  else {
    std::string p = a.out;
    if(R().nranks > 1) p += "." + std::to_string(R().rank);
    R().f = fopen(p.c_str(), "w");
    if(!R().f) { fprintf(stderr, "cannot write %s\n", p.c_str()); return 4; }
  }
  uint64_t hm = hash_s(a.mode);
  for(long k = a.from; k < a.to; k++) {
    Rng rng(mix(mix(a.seed, hm), (uint64_t)k));
    R().begin(k);
    body(rng, k, a.mode);
  }
  R().end();
  if(__lsan_disable) __lsan_disable();
  if(mpi) MPI_Finalize();
  if(__lsan_enable) __lsan_enable();
  return 0;
}

}  // namespace vh
