// Driver for complexes, pipes and packets: interprets a script of operations.
#include <chrono>
#include <ctime>
#include <fstream>
#include <iterator>
#include "common.hpp"
#include "basePipe.hpp"
#include "pipePacket.hpp"
#include "simplexBase.hpp"
#include "simplexArrayList.hpp"
#include "simplexTree.hpp"
#include "indSimplexTree.hpp"
#include "persistencePairs.hpp"
#include "boundaryPipe.hpp"
#include "preprocessor.hpp"

using namespace drv;

static std::string jsEdges(const std::vector<std::vector<std::pair<std::set<unsigned>, double>>> &e) {
  std::string s; js(s, e); return s;
}

static std::string jsTable(const std::vector<bettiBoundaryTableEntry> &t) {
  std::string s = "[";
  bool f = true;
  for (const auto &x : t) {
    if (!f) s += ','; f = false;
    s += '['; js(s, x.bettiDim); s += ','; js(s, x.birth); s += ','; js(s, x.death); s += ','; js(s, x.boundaryPoints); s += ']';
  }
  return s + "]";
}

static std::vector<std::vector<unsigned>> umat(In &in) {
  long n = in.i();
  std::vector<std::vector<unsigned>> m;
  while (n-- > 0) m.push_back(in.vu());
  return m;
}

static bool acceptAll(std::vector<double> &, std::vector<std::vector<double>> &) { return true; }
static bool rejectAll(std::vector<double> &, std::vector<std::vector<double>> &) { return false; }

static void script(In &in, Obj &out) {
  long n = in.i();
  std::map<long, pipePacket *> packets;
  std::map<long, std::string> types;
  long cur = 0;
  pipePacket *p = 0;
  std::string type;
  std::vector<basePipe *> pipes;
  std::vector<preprocessor *> pres;
  int keep = -1;
  std::vector<pipePacket> saved;
  std::string rec = "[";
  bool first = true;
  auto emit = [&](const Obj &o) { if (!first) rec += ','; first = false; rec += o.str(); };
  while (n-- > 0) {
    std::string c = in.tok();
    if (c == "new") { type = in.s(); auto cf = in.conf(); p = new pipePacket(cf, type); packets[cur] = p; types[cur] = type; }
    else if (c == "newe") { type = in.s(); double e = in.d(); int d = (int)in.i(); p = new pipePacket(type, e, d); packets[cur] = p; types[cur] = type; }
    else if (c == "at") { cur = in.i(); p = packets[cur]; type = types[cur]; }
    else if (c == "null") emit(Obj().put("null", p->complex == 0));
    else if (c == "data") { p->originalData = in.pts(); p->fullData = p->originalData; }
    else if (c == "fill") { capMemory(8000); long n = in.i(), w = in.i(); p->originalData.assign(n, std::vector<double>(w, 0.5)); }
    else if (c == "stats") emit(Obj().put("stats", p->stats));
    else if (c == "labels") { p->originalLabels = in.vu(); }
    else if (c == "mk") { std::string pt = in.s(), ct = in.s(); basePipe b; pipes.push_back(b.newPipe(pt, ct)); emit(Obj().put("made", pipes.back() != 0)); }
    else if (c == "cfg") { long k = in.i(); auto cf = in.conf(); emit(Obj().put("cfg", pipes[k]->configPipe(cf))); }
    else if (c == "go") { long k = in.i(); *p = pipes[k]->runPipeWrapper(*p); }
    else if (c == "pmk") { std::string pt = in.s(); preprocessor b; pres.push_back(b.newPreprocessor(pt)); emit(Obj().put("made", pres.back() != 0).put("proc", pres.back() ? pres.back()->procName : std::string())); }
    else if (c == "pcfg") { long k = in.i(); auto cf = in.conf(); emit(Obj().put("cfg", pres[k]->configPreprocessor(cf))); }
    else if (c == "pgo") { long k = in.i(); *p = pres[k]->runPreprocessorWrapper(*p); }
    else if (c == "kind") { long k = in.i(); emit(Obj().put("kind", pipes[k]->pipeType)); }
    else if (c == "ctype") emit(Obj().put("ctype", p->complex ? p->complex->simplexType : std::string("(none)")));
    else if (c == "capon") { std::cout.flush(); std::fflush(stdout); keep = dup(1); int fd = open("capture.txt", O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd); }
    else if (c == "capoff") {
      std::cout.flush(); std::fflush(stdout); dup2(keep, 1); close(keep);
      std::ifstream f("capture.txt");
      emit(Obj().put("printed", std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>())));
    }
    else if (c == "ls") {
      std::string d = in.s(); std::set<std::string> names;
      if (DIR *h = opendir(d.c_str())) { while (dirent *e = readdir(h)) names.insert(e->d_name); closedir(h); }
      names.erase("."); names.erase("..");
      emit(Obj().put("ls", names));
    }
    else if (c == "run") {
      std::string pt = in.s(); auto cf = in.conf();
      basePipe *b = new basePipe();
      basePipe *q = b->newPipe(pt, type);
      bool made = q != 0, ok = made && q->configPipe(cf);
      auto t0 = std::chrono::high_resolution_clock::now();
      std::clock_t c0 = std::clock();
      if (ok) *p = q->runPipeWrapper(*p);
      double cpu = (std::clock() - c0) / (double)CLOCKS_PER_SEC;
      double wall = std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - t0).count();
      emit(Obj().put("made", made).put("cfg", ok).put("wall", wall).put("cpu", cpu));
    }
    else if (c == "clear") p->complex->clear();
    else if (c == "dist") p->complex->setDistanceMatrix(in.pts());
    else if (c == "insert") { auto v = in.vd(); p->complex->insert(v); }
    else if (c == "expand") p->complex->expandDimensions((int)in.i());
    else if (c == "reduce") p->complex->reduceComplex();
    else if (c == "edges") { double e = in.d(); emit(Obj().raw("edges", jsEdges(p->complex->getAllEdges(e)))); }
    else if (c == "iedges") {
      double e = in.d();
      auto g = p->complex->getIndexEdges(e);
      std::vector<std::vector<std::pair<std::set<unsigned>, double>>> r;
      for (auto &x : g) { r.emplace_back(); for (auto &y : x) r.back().push_back({y.simplexSet, y.weight}); }
      std::vector<std::vector<unsigned>> pos;
      for (auto &x : g) { pos.emplace_back(); for (auto &y : x) pos.back().push_back(y.entry ? y.entry->sortedIndex : 4000000000u); }
      emit(Obj().raw("edges", jsEdges(r)).put("pos", pos));
    }
    else if (c == "dimedges") { int d = (int)in.i(); double e = in.d(); emit(Obj().put("dimedges", p->complex->getDimEdges(d, e))); }
    else if (c == "counts") emit(Obj().put("vertices", p->complex->vertexCount()).put("simplices", p->complex->simplexCount()).put("size", p->complex->getSize()).put("psize", p->getSize()));
    else if (c == "findv") { auto v = in.vu(); emit(Obj().put("found", p->complex->find(v))); }
    else if (c == "finds") { auto v = in.su(); emit(Obj().put("found", p->complex->find(v))); }
    else if (c == "weight") {
      auto *t = dynamic_cast<indSimplexTree *>(p->complex);
      auto v = in.su();
      Obj o;
      if (t) o.put("weight", t->getWeight(v));
      simplexBase::graphEntry e(v, 0, nullptr);
      std::vector<std::vector<unsigned>> f;
      for (auto &x : e.getAllSubsets(v)) f.push_back(std::vector<unsigned>(x.begin(), x.end()));
      emit(o.put("faces", f));
    }
    else if (c == "iter") {
      long acc = in.i(); auto v = in.vd(); auto w = in.pts();
      p->complex->setStreamEvaluator(acc ? &acceptAll : &rejectAll);
      emit(Obj().put("iter", p->complex->insertIterative(v, w)));
    }
    else if (c == "seval") { auto v = in.vd(); auto w = in.pts(); bool r = p->complex->streamEvaluator(v, w); emit(Obj().put("seval", r).put("stats", p->complex->simplexBase::stats)); }
    else if (c == "ranknull") { auto m = umat(in); persistencePairs q; emit(Obj().put("pivots", q.getRankNull(m, 0))); }
    else if (c == "bmat") { double e = in.d(); persistencePairs q; emit(Obj().put("pivots", q.createBoundaryMatrix(p->complex->getAllEdges(e)))); }
    else if (c == "redmat") { auto m = umat(in); boundaryPipe q; auto r = q.reduceBoundaryMatrix(m); emit(Obj().put("rows", r.first).put("rank", r.second.first).put("nullity", r.second.second)); }
    else if (c == "bndmat") { auto a = umat(in); auto b = umat(in); boundaryPipe q; auto r = q.boundaryMatrix(a, b); emit(Obj().put("rows", r.first).put("rank", r.second.first).put("nullity", r.second.second)); }
    else if (c == "faces") {          // threshold, size, weighted simplices; pairs of lists
      double e = in.d(); unsigned n = (unsigned)in.i();
      std::vector<std::pair<double, std::vector<unsigned>>> cx;
      long k = in.i();
      while (k-- > 0) { double w = in.d(); auto v = in.vu(); cx.push_back({w, v}); }
      persistencePairs pp; boundaryPipe bp;
      std::vector<std::vector<long>> r;
      k = in.i();
      while (k-- > 0) {
        auto a = in.vu(), b = in.vu();
        std::set<unsigned> x(a.begin(), a.end()), y(b.begin(), b.end());
        r.push_back({pp.checkFace(a, b), bp.checkFace(a, b), pp.checkFace(x, y)});
      }
      emit(Obj().put("pp", pp.nSimplices(e, n, cx)).put("bp", bp.nSimplices(e, n, cx)).put("faces", r));
    }
    else if (c == "save") saved.push_back(*p);
    else if (c == "load") { *p = saved[in.i()]; }
    else if (c == "snap") {
      emit(Obj().put("betti", p->bettiOutput).raw("table", jsTable(p->bettiTable)).put("stats", p->stats)
               .put("weights", p->weights).put("dist", p->complex->distMatrix).put("data", p->originalData)
               .put("full", p->fullData).put("labels", p->originalLabels));
    }
    else if (c == "cat") {
      std::string fn = in.s(); std::ifstream f(fn);
      std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
      emit(Obj().put("exists", (bool)f.is_open()).put("text", t));
    }
    else if (c == "put") { std::string fn = in.s(), t = in.s(); std::ofstream f(fn); f << t; }
    else { std::fprintf(stderr, "DRIVER: unknown command %s\n", c.c_str()); _exit(96); }
  }
  out.raw("rec", rec + "]");
}
static Reg r1("script", script);

int main(int argc, char **argv) { return serve(argc, argv); }
