// Driver for the utilities: set algebra, partitions, logging, file input and output, arguments.
#include <fstream>
#include <iterator>
#include "common.hpp"
#include "utils.hpp"
#include "readInput.hpp"
#include "writeOutput.hpp"
#include "argParser.hpp"

using namespace drv;

static std::vector<unsigned> vec(const std::set<unsigned> &s) { return std::vector<unsigned>(s.begin(), s.end()); }

static std::string slurp(const std::string &fn, bool *ok = 0) {
  std::ifstream f(fn);
  if (ok) *ok = (bool)f;
  return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

// Sends what is printed on stdout during f to a string.
template <class F> static std::string capture(F f) {
  std::cout.flush(); std::fflush(stdout);
  int keep = dup(1), fd = open("capture.txt", O_RDWR | O_CREAT | O_TRUNC, 0600);
  dup2(fd, 1);
  f();
  std::cout.flush(); std::fflush(stdout);
  dup2(keep, 1); close(keep); close(fd);
  return slurp("capture.txt");
}

static std::vector<bettiBoundaryTableEntry> table(In &in) {
  long n = in.i();
  std::vector<bettiBoundaryTableEntry> t;
  while (n-- > 0) { bettiBoundaryTableEntry e; e.bettiDim = (unsigned)in.i(); e.birth = in.d(); e.death = in.d(); e.boundaryPoints = in.su(); t.push_back(e); }
  return t;
}

static std::string jsTable(const std::vector<bettiBoundaryTableEntry> &t) {
  std::string s = "[";
  bool f = true;
  for (const auto &x : t) {
    if (!f) s += ',';
    f = false;
    s += '['; js(s, x.bettiDim); s += ','; js(s, x.birth); s += ','; js(s, x.death); s += ','; js(s, x.boundaryPoints); s += ']';
  }
  return s + "]";
}

// Each operation twice over: on the arguments as given and on sorted copies with the flag set.
static void sets(In &in, Obj &o) {
  auto a = in.vu(), b = in.vu();
  std::set<unsigned> sa(a.begin(), a.end()), sb(b.begin(), b.end());
  auto va = vec(sa), vb = vec(sb);
  utils u;
  o.put("union", u.setUnion(a, b, false)).put("union_s", u.setUnion(va, vb, true));
  o.put("inter", u.setIntersect(a, b, false)).put("inter_s", u.setIntersect(va, vb, true)).put("inter_set", u.setIntersect(sa, sb, true)).put("inter_set0", u.setIntersect(sa, sb, false));
  o.put("sym", u.symmetricDiff(a, b, false)).put("sym_s", u.symmetricDiff(va, vb, true)).put("sym_set", u.symmetricDiff(sa, sb, true)).put("sym_set0", u.symmetricDiff(sa, sb, false));
  o.put("xor", u.setXOR(sa, sb)).put("a", sa).put("b", sb);
  o.put("pair", u.intersect(a, b, false)).put("pair_s", u.intersect(va, vb, true));
}
static Reg r1("sets", sets);

static void subsets(In &in, Obj &o) {
  auto a = in.vu();
  std::set<unsigned> sa(a.begin(), a.end());
  int k = (int)in.i();
  utils u;
  o.put("dim", u.getSubsets(sa, k)).put("faces", u.getSubsets(sa)).put("vfaces", u.getSubsets(vec(sa)));
}
static Reg r2("subsets", subsets);

static void distances(In &in, Obj &o) {
  auto p = in.vd();
  auto pts = in.pts();
  utils u;
  std::vector<double> d, e, s;
  for (auto &q : pts) { d.push_back(u.vectors_distance(p, q)); e.push_back(u.vectors_distance(q, p)); for (size_t k = 0; k < p.size(); k++) s.push_back(u.vectors_distance(p[k], q[k])); }
  o.put("near", u.nearestNeighbors(p, pts)).put("d", d).put("e", e).put("sq", s);
}
static Reg r3("distances", distances);

static void parts(In &in, Obj &o) {
  int k = (int)in.i();
  auto cent = in.pts();
  auto data = in.pts();
  auto lab = in.vu();
  double rad = in.d();
  long nb = in.i();
  std::vector<std::set<unsigned>> bl;
  while (nb-- > 0) bl.push_back(in.su());
  utils u;
  o.put("maxr", u.computeMaxRadius(k, cent, data, lab));
  auto a = u.separatePartitions(k, data, lab);
  o.put("idx", a.first).put("pts", a.second);
  auto b = u.separatePartitions(rad, cent, data, lab);
  o.put("ridx", b.first).put("rpts", b.second);
  o.put("bnd", u.separateBoundaryPartitions(bl, data, lab));
}
static Reg r4("parts", parts);

static void remap(In &in, Obj &o) {
  auto lab = in.vu();
  auto t = table(in);
  utils u;
  u.mapPartitionIndexing(lab, t);
  o.raw("table", jsTable(t));
}
static Reg r5("remap", remap);

// n messages through loggers of given (debug, file): kind 0 log, 1 debug, 2 error
static void logs(In &in, Obj &o) {
  long m = in.i();
  std::vector<utils> us;
  std::vector<std::string> files;
  while (m-- > 0) {
    long def = in.i(); std::string d = in.s(), f = in.s();
    if (def) us.push_back(utils()); else us.push_back(utils(d, f));
    files.push_back(f);
  }
  long np = in.i();      // files that are there already
  while (np-- > 0) { std::string f = in.s(), t = in.s(); std::ofstream(f) << t; }
  long n = in.i();
  std::string con = capture([&] {
    while (n-- > 0) {
      long w = in.i(), k = in.i(); std::string mod = in.s(), msg = in.s();
      if (k == 0) us[w].writeLog(mod, msg); else if (k == 1) us[w].writeDebug(mod, msg); else us[w].writeError(mod, msg);
    }
  });
  o.put("console", con);
  std::map<std::string, std::string> got;
  for (auto &f : files) { bool ok; std::string t = slurp(f, &ok); if (ok) got[f] = t; }
  o.put("files", got);
}
static Reg r6("logs", logs);

static void readcsv(In &in, Obj &o) {
  std::string fn = in.s(), text = in.s();
  long exists = in.i();
  if (exists) { std::ofstream f(fn); f << text; }
  readInput r;
  o.put("batch", r.readCSV(fn));
  readInput s;
  Pts rows;
  bool init = s.streamInit(fn);
  long guard = 0;
  if (init) { std::vector<double> row; while (s.streamRead(row)) { rows.push_back(row); row.clear(); if (++guard > 100000) break; } }
  o.put("init", init).put("stream", rows);
  std::vector<double> row;
  o.put("after", s.streamRead(row));
}
static Reg r7("readcsv", readcsv);

// One reader, several files in turn: existing or not, read up to n rows.
static void streams(In &in, Obj &o) {
  readInput s;
  long n = in.i();
  std::string out = "[";
  for (long k = 0; k < n; k++) {
    std::string fn = "f" + std::to_string(k) + ".csv";
    long exists = in.i();
    std::string text = in.s();
    long m = in.i(), batch = in.i();
    if (exists) { std::ofstream f(fn); f << text; }
    Obj x;
    bool init = s.streamInit(fn), end = false;
    Pts rows;
    if (batch) x.put("batch", s.readCSV(fn));
    while (m-- > 0) {
      std::vector<double> row;
      if (!s.streamRead(row)) { end = true; break; }
      rows.push_back(row);
    }
    x.put("init", init).put("rows", rows).put("end", end);
    if (k) out += ',';
    out += x.str();
  }
  o.raw("turns", out + "]");
}
static Reg r7b("streams", streams);

static void readmat(In &in, Obj &o) {
  std::string fn = in.s(), text = in.s();
  long exists = in.i();
  if (exists) { std::ofstream f(fn); f << text; }
  readInput r;
  o.put("rows", r.readMAT(fn));
}
static Reg r8("readmat", readmat);

static void uninit(In &in, Obj &o) {
  // a reader on memory that held something else before
  alignas(readInput) unsigned char mem[sizeof(readInput)];
  std::memset(mem, (int)in.i(), sizeof mem);
  readInput *r = new (mem) readInput();
  std::vector<double> row;
  o.put("read", r->streamRead(row)).put("row", row);
}
static Reg r9("uninit", uninit);

// Writes in the named way over an optional previous file, then reads back.
static void writes(In &in, Obj &o) {
  std::string how = in.s(), fn = in.s(), head = in.s(), text = in.s(), before = in.s();
  auto data = in.pts();
  std::string full = how == "mat" ? fn + ".mat" : how == "stats" ? fn + "_stats.csv" : fn + ".csv";
  if (!before.empty()) { std::ofstream f(full); f << before; }
  writeOutput w;
  bool ok = false;
  if (how == "mat") ok = w.writeMAT(data, fn);
  else if (how == "stats") ok = w.writeStats(text, fn);
  else if (how == "csvd") ok = w.writeCSV(data, fn);
  else if (how == "csvdh") ok = w.writeCSV(data, fn, head);
  else if (how == "csvs") ok = w.writeCSV(text, fn);
  else if (how == "csvsh") ok = w.writeCSV(text, fn, head);
  else if (how == "bard") ok = w.writeBarcodes(data, fn);
  else if (how == "bars") ok = w.writeBarcodes(text, fn);
  else { std::fprintf(stderr, "DRIVER: unknown way %s\n", how.c_str()); _exit(96); }
  bool ex; std::string t = slurp(full, &ex);
  o.put("ok", ok).put("exists", ex).put("text", t);
  readInput r;
  if (how == "mat") o.put("back", r.readMAT(full));
  else if (how == "csvd") {
    o.put("back", r.readCSV(full));
  }
}
static Reg r10("writes", writes);

static void args(In &in, Obj &o) {
  long n = in.i();
  std::vector<std::string> a;
  while (n-- > 0) a.push_back(in.s());
  std::vector<char *> argv;
  for (auto &x : a) argv.push_back(strdup(x.c_str()));
  argv.push_back(0);
  argParser p;
  std::map<std::string, std::string> m;
  std::string con = capture([&] { m = p.parse((int)a.size(), argv.data()); });
  o.put("args", m).put("console", con);
  auto m2 = m;
  p.setPipeline(m2);
  o.put("piped", m2);
  auto m3 = m2;
  p.setPipeline(m3);
  o.put("again", m3);
  std::string pr = capture([&] { p.printArguments(m); });
  o.put("printed", pr);
}
static Reg r11("args", args);

int main(int argc, char **argv) { return serve(argc, argv); }
