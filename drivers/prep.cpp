// Driver for clustering and search: k-d tree, DBSCAN, micro-clusters, preprocessors.
#include <fstream>
#include <iterator>
#include "common.hpp"
#include "preprocessor.hpp"
#include "kMeansPlusPlus.hpp"
#include "denStream.hpp"
#include "streamingKmeans.hpp"
#include "dbscan.hpp"
#include "kdTree.hpp"

using namespace drv;

static std::string slurp(const std::string &fn, bool *ok = 0) {
  std::ifstream f(fn);
  if (ok) *ok = (bool)f;
  return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

// size, points, queries: [point, radius]
static void kd(In &in, Obj &o) {
  int size = (int)in.i();
  auto pts = in.pts();
  kdTree t(pts, size);
  long n = in.i();
  std::string r = "[";
  bool first = true;
  while (n-- > 0) {
    auto q = in.vd();
    double rad = in.d();
    Obj x;
    if (!pts.empty()) {
      auto a = t.nearestPointIndex(q);
      x.put("index", t.nearestIndex(q)).put("point", t.nearestPoint(q)).put("pi", a.second).put("pp", a.first);
    }
    x.put("nidx", t.neighborhoodIndices(q, rad)).put("npts", t.neighborhoodPoints(q, rad));
    auto nb = t.neighborhood(q, rad);
    std::vector<std::vector<double>> p; std::vector<size_t> ix;
    for (auto &e : nb) { p.push_back(e.first); ix.push_back(e.second); }
    x.put("bidx", ix).put("bpts", p);
    if (!first) r += ',';
    first = false;
    r += x.str();
  }
  o.raw("q", r + "]");
}
static Reg r1("kd", kd);

static void db(In &in, Obj &o) {
  int size = (int)in.i(), minp = (int)in.i();
  double eps = in.d();
  auto pts = in.pts();
  o.put("labels", dbscan::cluster(pts, minp, eps, size));
}
static Reg r2("dbscan", db);

// creation time, lambda, dimension, then events: 0 insert p t / 1 ask merge radius of p at t / 2 ask state at t
static void micro(In &in, Obj &o) {
  int t0 = (int)in.i();
  double l = in.d();
  int dim = (int)in.i();
  microCluster m(t0, dim, l);
  long n = in.i();
  std::string r = "[";
  bool first = true;
  while (n-- > 0) {
    long k = in.i();
    int t = (int)in.i();
    Obj x;
    if (k == 0) { auto p = in.vd(); m.insertPoint(p, t); }
    else if (k == 1) { auto p = in.vd(); x.put("merge", m.mergeRadius(p, t)); }
    else x.put("weight", m.getWeight(t)).put("radius", m.getRadius()).put("center", m.getCenter()).put("created", m.getCreationTime());
    if (!first) r += ',';
    first = false;
    r += x.str();
  }
  o.raw("ev", r + "]");
}
static Reg r3("micro", micro);

// preprocessor name, configuration, points, how many independent runs; reuse: same object for every run
static void pre(In &in, Obj &o) {
  std::string name = in.s();
  auto cf = in.conf();
  auto pts = in.pts();
  long runs = in.i(), reuse = in.i();
  std::string r = "[";
  preprocessor *p = 0;
  bool cfg = false;
  for (long k = 0; k < runs; k++) {
    if (!p || !reuse) { preprocessor f; p = f.newPreprocessor(name); cfg = p->configPreprocessor(cf); }
    pipePacket w("simplexTree", 1.0, 1);
    w.originalData = w.fullData = pts;
    w.stats = "before\n";
    pipePacket v = p->runPreprocessorWrapper(w);
    Obj x;
    x.put("cent", v.originalData).put("full", v.fullData).put("labels", v.originalLabels).put("stats", v.stats).put("cfg", cfg);
    x.put("lfile", slurp("output/" + p->procName + "_label_output.csv")).put("cfile", slurp("output/" + p->procName + "_centroid_output.csv"));
    if (k) r += ',';
    r += x.str();
  }
  o.raw("runs", r + "]");
}
static Reg r4("pre", pre);

// facilities, their order by projection, direction, points: search, approximate nearest facility and dot product of each point
static void proj(In &in, Obj &o) {
  auto fac = in.pts();
  auto ord = in.vu();
  auto om = in.vd();
  auto pts = in.pts();
  streamingKmeans s;
  std::vector<std::pair<double, int>> sorted;
  for (auto i : ord) sorted.push_back(std::make_pair(s.dotProd(fac[i], om), (int)i));
  pipePacket w("simplexTree", 1.0, 1);
  w.originalData = pts;
  std::string r = "[";
  for (size_t k = 0; k < pts.size(); k++) {
    double p = s.dotProd(pts[k], om);
    Obj x;
    x.put("dot", p).put("loc", s.binarySearch(sorted, om, (int)sorted.size(), p));
    x.put("near", s.approxNearestNeighbor(fac, sorted, om, (int)k, (int)sorted.size(), w));
    if (k) r += ',';
    r += x.str();
  }
  o.raw("q", r + "]");
  std::vector<double> pr;
  for (auto &e : sorted) pr.push_back(e.first);
  // the same search for each facility itself
  std::string h = "[";
  for (size_t k = 0; k < fac.size(); k++) {
    Obj x;
    x.put("loc", s.binarySearch(sorted, om, (int)sorted.size(), s.dotProd(fac[k], om)));
    x.put("near", s.approxHat(fac, sorted, om, (int)k, (int)sorted.size()));
    if (k) h += ',';
    h += x.str();
  }
  o.raw("self", h + "]");
  o.put("proj", pr).put("fac", fac);
}
static Reg r5("proj", proj);

// low, high, how often, probability
static void rnd(In &in, Obj &o) {
  int lo = (int)in.i(), hi = (int)in.i();
  long n = in.i();
  double f = in.d();
  streamingKmeans s;
  std::vector<double> d;
  std::vector<long> v;
  long hits = 0;
  while (n-- > 0) { d.push_back(s.randDouble()); v.push_back(s.random(lo, hi)); hits += s.prob(f); }
  o.put("doubles", d).put("ints", v).put("hits", hits);
}
static Reg r6("rnd", rnd);

int main(int argc, char **argv) { return serve(argc, argv); }
