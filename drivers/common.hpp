// Shared plumbing of the drivers: a line in, a forked child runs the handler
// against the library under test, one JSON line out.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

namespace drv {

// The entropy a case sees comes from the case itself, so that a failure replays.
inline unsigned long long &entropy() { static unsigned long long s = 1; return s; }

typedef std::vector<std::vector<double>> Pts;

struct In {
  std::istringstream ss;
  explicit In(const std::string &l) : ss(l) {}
  std::string tok() { std::string t; if (!(ss >> t)) { std::fprintf(stderr, "DRIVER: request too short\n"); _exit(97); } return t; }
  long i() { return std::strtol(tok().c_str(), 0, 10); }
  double d() { return std::strtod(tok().c_str(), 0); }
  // strings travel percent-encoded, with a leading '_' so that "" is a token
  std::string s() {
    std::string t = tok(), r;
    for (size_t k = 1; k < t.size(); k++) {
      if (t[k] == '%' && k + 2 < t.size()) { r += (char)std::strtol(t.substr(k + 1, 2).c_str(), 0, 16); k += 2; }
      else r += t[k];
    }
    return r;
  }
  std::vector<double> vd() { long n = i(); std::vector<double> v; while (n-- > 0) v.push_back(d()); return v; }
  std::vector<unsigned> vu() { long n = i(); std::vector<unsigned> v; while (n-- > 0) v.push_back((unsigned)i()); return v; }
  std::set<unsigned> su() { auto v = vu(); return std::set<unsigned>(v.begin(), v.end()); }
  Pts pts() { long n = i(); Pts p; while (n-- > 0) p.push_back(vd()); return p; }
  std::map<std::string, std::string> conf() { long n = i(); std::map<std::string, std::string> m; while (n-- > 0) { std::string k = s(); m[k] = s(); } return m; }
};

inline void js(std::string &o, double x) {
  if (std::isnan(x)) { o += "NaN"; return; }
  if (std::isinf(x)) { o += x > 0 ? "Infinity" : "-Infinity"; return; }
  char b[40]; std::snprintf(b, sizeof b, "%.17g", x); o += b;
}
inline void js(std::string &o, int x) { o += std::to_string(x); }
inline void js(std::string &o, long x) { o += std::to_string(x); }
inline void js(std::string &o, unsigned x) { o += std::to_string(x); }
inline void js(std::string &o, unsigned long x) { o += std::to_string(x); }
inline void js(std::string &o, bool x) { o += x ? "true" : "false"; }
inline void js(std::string &o, const std::string &s) {
  o += '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  o += '"';
}
template <class A, class B> void js(std::string &o, const std::pair<A, B> &p);
template <class T> void js(std::string &o, const std::vector<T> &v);
template <class T, class C> void js(std::string &o, const std::set<T, C> &v);
template <class V> void js(std::string &o, const std::map<std::string, V> &m);
template <class A, class B> void js(std::string &o, const std::pair<A, B> &p) { o += '['; js(o, p.first); o += ','; js(o, p.second); o += ']'; }
template <class T> void js(std::string &o, const std::vector<T> &v) { o += '['; bool f = true; for (const auto &x : v) { if (!f) o += ','; f = false; js(o, x); } o += ']'; }
template <class T, class C> void js(std::string &o, const std::set<T, C> &v) { o += '['; bool f = true; for (const auto &x : v) { if (!f) o += ','; f = false; js(o, x); } o += ']'; }
template <class V> void js(std::string &o, const std::map<std::string, V> &m) { o += '{'; bool f = true; for (const auto &x : m) { if (!f) o += ','; f = false; js(o, x.first); o += ':'; js(o, x.second); } o += '}'; }

// An object under construction: {"k":v,...}
struct Obj {
  std::string b = "{"; bool first = true;
  template <class T> Obj &put(const std::string &k, const T &v) { if (!first) b += ','; first = false; js(b, k); b += ':'; js(b, v); return *this; }
  Obj &raw(const std::string &k, const std::string &v) { if (!first) b += ','; first = false; js(b, k); b += ':'; b += v; return *this; }
  std::string str() const { return b + "}"; }
};

typedef std::function<void(In &, Obj &)> Handler;
inline std::map<std::string, Handler> &table() { static std::map<std::string, Handler> t; return t; }
struct Reg { Reg(const char *n, Handler h) { table()[n] = h; } };

inline void writeAll(int fd, const std::string &s) {
  size_t k = 0;
  while (k < s.size()) { ssize_t w = write(fd, s.data() + k, s.size() - k); if (w <= 0) _exit(98); k += (size_t)w; }
}

// Removes what is inside directory d (a path relative to the scratch directory).
inline void emptyDir(const std::string &d) {
  DIR *h = opendir(d.c_str());
  if (!h) return;
  while (dirent *e = readdir(h)) {
    std::string nm = e->d_name;
    if (nm == "." || nm == "..") continue;
    std::string p = d + "/" + nm;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { emptyDir(p); rmdir(p.c_str()); }
    else unlink(p.c_str());
  }
  closedir(h);
}

// Caps the address space at what is mapped now plus mb megabytes.
inline void capMemory(unsigned long mb) {
  FILE *f = std::fopen("/proc/self/statm", "r");
  unsigned long pages = 0;
  if (f) { if (std::fscanf(f, "%lu", &pages) != 1) pages = 0; std::fclose(f); }
  if (!pages) return;
  rlimit r; r.rlim_max = RLIM_INFINITY; r.rlim_cur = pages * (unsigned long)sysconf(_SC_PAGESIZE) + (mb << 20);
  setrlimit(RLIMIT_AS, &r);
}

// Runs in a scratch directory of its own (the caller's cwd); every case starts
// in an empty ./case with an empty ./case/output.
// argv[1]: file that receives the child's stderr; argv[2]: CPU seconds per case
inline int serve(int argc, char **argv) {
  if (argc < 3) return 99;
  int out = dup(1);
  int null = open("/dev/null", O_RDWR);
  dup2(null, 1);
  long cpu = std::strtol(argv[2], 0, 10);
  std::string line;
  char *buf = 0; size_t cap = 0; ssize_t got;
  FILE *in = fdopen(dup(0), "r");
  dup2(null, 0);
  while ((got = getline(&buf, &cap, in)) > 0) {
    line.assign(buf, (size_t)got);
    emptyDir("case");
    mkdir("case", 0700); mkdir("case/output", 0700);
    pid_t p = fork();
    if (p == 0) {
      int ef = open(argv[1], O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(ef, 2);
      if (chdir("case") != 0) _exit(97);
      capMemory(2500);
      rlimit rl; rl.rlim_cur = (rlim_t)cpu; rl.rlim_max = (rlim_t)cpu + 1; setrlimit(RLIMIT_CPU, &rl);
      rlimit rf; rf.rlim_cur = rf.rlim_max = 64ul << 20; setrlimit(RLIMIT_FSIZE, &rf);
      rlimit rc; rc.rlim_cur = rc.rlim_max = 0; setrlimit(RLIMIT_CORE, &rc);
      entropy() = 1469598103934665603ull;
      for (unsigned char ch : line) entropy() = (entropy() ^ ch) * 1099511628211ull;
      In req(line);
      std::string op = req.tok();
      auto h = table().find(op);
      if (h == table().end()) { std::fprintf(stderr, "DRIVER: unknown op %s\n", op.c_str()); _exit(96); }
      Obj o;
      try { h->second(req, o); }
      catch (const std::exception &e) { o = Obj(); o.put("exception", std::string(e.what())); }
      writeAll(out, o.str() + "\n");
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      Obj o;
      if (WIFSIGNALED(st)) o.put("crash", std::string("signal ") + std::to_string(WTERMSIG(st)));
      else o.put("crash", std::string("exit ") + std::to_string(WEXITSTATUS(st)));
      writeAll(out, "\n" + o.str() + "\n");
    }
  }
  return 0;
}

}  // namespace drv

// In place of the hardware's: splitmix64 over the case's hash.
std::random_device::result_type std::random_device::_M_getval() {
  unsigned long long z = (drv::entropy() += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return (result_type)(z ^ (z >> 31));
}
