// Driver for the whole program: runs /repo's main() (compiled as lhf_main) on argument vectors and files.
#include <fstream>
#include <iterator>
#include <sys/types.h>
#include "common.hpp"

using namespace drv;
int lhf_main(int argc, char **argv);

static std::string slurp(const std::string &fn) {
  std::ifstream f(fn);
  return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

static void list(const std::string &d, std::map<std::string, std::string> &m) {
  DIR *h = opendir(d.empty() ? "." : d.c_str());
  if (!h) return;
  while (dirent *e = readdir(h)) {
    std::string nm = e->d_name;
    if (nm == "." || nm == "..") continue;
    std::string p = d.empty() ? nm : d + "/" + nm;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) list(p, m);
    else m[p] = slurp(p);
  }
  closedir(h);
}

// files (name, contents), then runs of argument vectors, one after the other in one directory
static void cli(In &in, Obj &o) {
  long nf = in.i();
  while (nf-- > 0) { std::string n = in.s(); std::ofstream f(n, std::ios::binary); std::string c = in.s(); f.write(c.data(), (std::streamsize)c.size()); }
  long nr = in.i();
  std::string out = "[";
  for (long r = 0; r < nr; r++) {
    std::vector<std::string> a(1, "LHF");
    long n = in.i();
    while (n-- > 0) a.push_back(in.s());
    std::vector<char *> v;
    for (auto &x : a) v.push_back(&x[0]);
    v.push_back(0);
    std::ostringstream cap;
    std::streambuf *old = std::cout.rdbuf(cap.rdbuf());
    int rc = lhf_main((int)a.size(), v.data());
    std::cout.rdbuf(old);
    std::map<std::string, std::string> m;
    list("", m);
    Obj x;
    x.put("rc", rc).put("out", cap.str()).put("files", m);
    if (r) out += ',';
    out += x.str();
  }
  o.raw("runs", out + "]");
}
static Reg r1("cli", cli);

int main(int argc, char **argv) { return serve(argc, argv); }
