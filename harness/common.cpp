#include "common.h"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <sstream>

// ---------------------------------------------------------------- util
std::string strf(const char* fmt, ...) {
  char b[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
std::string vecstr(const std::vector<double>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += strf("%s%.10g", i ? "," : "", v[i]);
  return s + "]";
}
uint64_t hash64(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
std::string build_dir() {
  const char* b = getenv("VF_BUILD");
  return b ? b : "/verif/build";
}
void* Lib::sym(const char* n, bool must) {
  void* p = dlsym(h, n);
  if (!p && must) { fprintf(stderr, "no symbol %s in %s\n", n, variant.c_str()); _exit(4); }
  return p;
}
Lib* load_lib(const std::string& variant) {
  static std::map<std::string, Lib*> cache;
  auto it = cache.find(variant);
  if (it != cache.end()) return it->second;
  Lib* L = new Lib;
  std::string v = variant;
#ifdef __SANITIZE_ADDRESS__
  if (v.find("_") == std::string::npos) v += "_asan";
#endif
  L->variant = variant;
  if (const char* ok = getenv("VF_LIBS"))
    if (("," + std::string(ok) + ",").find("," + v + ",") == std::string::npos) { fprintf(stderr, "library %s was not built for this check\n", v.c_str()); _exit(4); }
  std::string path = build_dir() + "/" + v + "/libvf.so";
  L->h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!L->h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(4); }
#define VF_LOAD(f) L->f = (decltype(L->f))L->sym(#f, false);
  VF_API_LIST(VF_LOAD)
  L->env = ((vf_env * (*)(void)) L->sym("vf_get_env"))();
  L->env->clock_virtual = 1;
  L->env->now_ns = 1000000000LL;
  cache[variant] = L;
  return L;
}

// ---------------------------------------------------------------- explorer
void Ctx::viol(const std::string& key, const char* fmt, ...) {
  char b[6000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  for (auto& v : viols) if (v.first == key) return;
  viols.push_back({key, b});
}
void Ctx::outcome(const std::string& s) { outcomes.insert(hash64(s.data(), s.size())); }

struct Slot {
  volatile int64_t cur;      // case being run, -1 idle
  volatile double started;
  volatile uint64_t done, evals, states, transitions, traces, skipped;
};
struct Shared {
  volatile uint64_t next;
  Slot slots[64];
};
static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) o += strf("\\u%04x", c);
    else o += c;
  }
  return o;
}
struct Found { uint64_t idx; std::string key, msg; };

static std::string oneline(std::string s) {
  for (auto& c : s) if (c == '\n' || c == '\t') c = ' ';
  return s;
}

struct Explorer {
  const Check& c;
  std::string tier, outdir;
  std::vector<Space> sp;
  std::vector<uint64_t> base;
  uint64_t total = 0;
  explicit Explorer(const Check& c_, const std::string& t) : c(c_), tier(t) {
    sp = c.spaces(tier);
    const char* only = getenv("VF_SPACE");
    for (auto& s : sp) {
      if (only && s.name != only) s.count = 0;
      base.push_back(total); total += s.count;
    }
    const char* od = getenv("VF_OUT");
    outdir = std::string(od ? od : "/verif/out") + "/" + c.id;
  }
  size_t space_of(uint64_t idx) const {
    size_t k = 0;
    while (k + 1 < sp.size() && !(idx < base[k] + sp[k].count)) k++;
    return k;
  }
  std::string name(uint64_t idx) const {
    size_t k = space_of(idx);
    std::string d = sp[k].describe ? sp[k].describe(idx - base[k]) : "";
    return sp[k].name + "#" + std::to_string(idx - base[k]) + (d.empty() ? "" : " " + d);
  }
  void run_one(uint64_t idx, Ctx& x) const {
    size_t k = space_of(idx);
    x.viols.clear();
    sp[k].run(idx - base[k], x);
  }
  // ------- worker
  void worker(Shared* sh, int w, int nw, uint64_t chunk, double deadline) {
    Ctx x;
    x.tier = tier;
    Slot& s = sh->slots[w];
    FILE* vf = fopen((outdir + "/w" + std::to_string(w) + ".viol").c_str(), "a");
    bool stop = false;
    while (!stop) {
      uint64_t b = __atomic_fetch_add(&sh->next, chunk, __ATOMIC_SEQ_CST);
      if (b >= total) break;
      for (uint64_t i = b; i < std::min(b + chunk, total); i++) {
        if (now() > deadline) { stop = true; break; }
        s.started = now();
        s.cur = (int64_t)i;
        run_one(i, x);
        for (auto& v : x.viols) fprintf(vf, "%llu\t%s\t%s\n", (unsigned long long)i, oneline(v.first).c_str(), oneline(v.second).c_str());
        if (!x.viols.empty()) fflush(vf);
        s.cur = -1;
        s.done = s.done + 1;
        s.evals += x.evals; s.states += x.states; s.transitions += x.transitions; s.traces += x.traces; s.skipped += x.skipped;
        x.evals = x.states = x.transitions = x.traces = x.skipped = 0;
      }
    }
    fclose(vf);
    FILE* of = fopen((outdir + "/w" + std::to_string(w) + ".out").c_str(), "a");
    for (uint64_t h : x.outcomes) fprintf(of, "o %llx\n", (unsigned long long)h);
    for (auto& t : x.tally) fprintf(of, "t %llu %s\n", (unsigned long long)t.second, oneline(t.first).c_str());
    for (auto& t : x.samples) fprintf(of, "s %s\n", oneline(t).c_str());
    fclose(of);
    _exit(0);
  }
  // run one case in a fresh process; returns "" (held), or the keys found, or a crash/hang key
  std::vector<Found> isolated(uint64_t idx, double tmo) {
    int fd[2];
    if (pipe(fd)) _exit(5);
    pid_t p = fork();
    if (!p) {
      close(fd[0]);
      Ctx x;
      x.tier = tier;
      x.replay = true;
      run_one(idx, x);
      FILE* f = fdopen(fd[1], "w");
      for (auto& v : x.viols) fprintf(f, "%s\t%s\n", oneline(v.first).c_str(), oneline(v.second).c_str());
      fclose(f);
      _exit(0);
    }
    close(fd[1]);
    std::string txt;
    char b[4096];
    double t0 = now();
    int st = 0;
    fcntl(fd[0], F_SETFL, O_NONBLOCK);
    bool hung = false;
    for (;;) {
      ssize_t r = read(fd[0], b, sizeof b);
      if (r > 0) { txt.append(b, r); continue; }
      if (r == 0) break;
      if (now() - t0 > tmo) { hung = true; kill(p, SIGKILL); break; }
      usleep(2000);
    }
    close(fd[0]);
    waitpid(p, &st, 0);
    std::vector<Found> out;
    if (hung) { out.push_back({idx, "hang", strf("no answer within %.0f s", tmo)}); return out; }
    if (WIFSIGNALED(st)) out.push_back({idx, "crash", strf("signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)))});
    else if (WEXITSTATUS(st)) out.push_back({idx, "crash", strf("process ended with exit status %d (sanitizer report or exit call)", WEXITSTATUS(st))});
    std::istringstream is(txt);
    std::string line;
    while (std::getline(is, line)) {
      size_t t = line.find('\t');
      if (t != std::string::npos) out.push_back({idx, line.substr(0, t), line.substr(t + 1)});
    }
    return out;
  }
  int explore() {
    double t0 = now();
    const char* dl = getenv("VF_DEADLINE");
    double deadline = t0 + (dl ? atof(dl) : (tier == "thorough" ? 780 : 420));
    if (system(("rm -rf '" + outdir + "'; mkdir -p '" + outdir + "'").c_str())) return 3;
    int nw = 8;
    if (getenv("VF_JOBS")) nw = atoi(getenv("VF_JOBS"));
    else { long n = sysconf(_SC_NPROCESSORS_ONLN); nw = (int)std::max(1L, std::min(16L, n)); }
    Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof *sh);
    for (auto& s : sh->slots) s.cur = -1;
    uint64_t chunk = std::max<uint64_t>(1, std::min<uint64_t>(256, total / (nw * 16) + 1));
    for (auto& q : sp) if (q.count) chunk = std::min<uint64_t>(chunk, q.count / (nw * 8) + 1);   // no space falls to a single worker
    std::vector<pid_t> pid(nw, 0);
    std::vector<Found> found;
    int crashes = 0, live = 0;
    auto spawn = [&](int w) {
      fflush(0);
      pid_t p = fork();
      if (!p) {
        if (getenv("VF_QUIET_STDERR")) { int d = open("/dev/null", O_WRONLY); dup2(d, 2); }
        worker(sh, w, nw, chunk, deadline);
      }
      pid[w] = p;
      live++;
    };
    setenv("VF_QUIET_STDERR", "1", 0);
    for (int w = 0; w < nw; w++) spawn(w);
    std::map<std::string, int> crash_spaces;
    bool gave_up = false;
    while (live) {
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        int w = (int)(std::find(pid.begin(), pid.end(), p) - pid.begin());
        live--;
        if (w < nw) {
          pid[w] = 0;
          bool bad = WIFSIGNALED(st) || WEXITSTATUS(st) != 0;
          if (bad) {
            int64_t cur = sh->slots[w].cur;
            if (cur < 0) { fprintf(stderr, "%s: worker ended abnormally (%x) outside a case\n", c.id.c_str(), st); return 4; }
            found.push_back({(uint64_t)cur, "crash", WIFSIGNALED(st) ? strf("signal %d", WTERMSIG(st)) : strf("exit status %d", WEXITSTATUS(st))});
            sh->slots[w].cur = -1;
            if (++crashes < 40) spawn(w);
            else gave_up = true;
          }
        }
        continue;
      }
      usleep(5000);
      for (int w = 0; w < nw; w++)
        if (pid[w] && sh->slots[w].cur >= 0 && now() - sh->slots[w].started > c.case_timeout) {
          int64_t cur = sh->slots[w].cur;
          found.push_back({(uint64_t)cur, "hang", "watchdog"});
          kill(pid[w], SIGKILL);
          waitpid(pid[w], &st, 0);
          live--;
          pid[w] = 0;
          sh->slots[w].cur = -1;
          if (++crashes < 40) spawn(w);
          else gave_up = true;
        }
    }
    uint64_t done = 0, evals = 0, states = 0, trans = 0, traces = 0, skipped = 0;
    for (int w = 0; w < nw; w++) {
      auto& s = sh->slots[w];
      done += s.done; evals += s.evals; states += s.states; trans += s.transitions; traces += s.traces; skipped += s.skipped;
    }
    std::set<std::string> outs;
    std::map<std::string, uint64_t> tally;
    std::vector<std::string> samples;
    for (int w = 0; w < nw; w++) {
      std::ifstream f(outdir + "/w" + std::to_string(w) + ".out");
      std::string line;
      while (std::getline(f, line)) {
        if (line[0] == 'o') outs.insert(line.substr(2));
        else if (line[0] == 't') { size_t k = line.find(' ', 2); tally[line.substr(k + 1)] += strtoull(line.c_str() + 2, 0, 10); }
        else if (line[0] == 's' && samples.size() < 8) samples.push_back(line.substr(2));
      }
      std::ifstream g(outdir + "/w" + std::to_string(w) + ".viol");
      while (std::getline(g, line)) {
        size_t a = line.find('\t'), b = line.find('\t', a + 1);
        if (b == std::string::npos) continue;
        found.push_back({strtoull(line.c_str(), 0, 10), line.substr(a + 1, b - a - 1), line.substr(b + 1)});
      }
    }
    // group by key; confirm the first few of each by replaying alone
    std::map<std::string, std::vector<Found>> by;
    for (auto& f : found) by[f.key].push_back(f);
    for (auto& b : by) std::stable_sort(b.second.begin(), b.second.end(), [](const Found& a, const Found& b) { return a.idx < b.idx; });
    // known findings
    std::vector<std::pair<std::string, std::string>> known;  // key, text
    {
      const char* kf = getenv("VF_KNOWN");
      std::ifstream f(kf ? kf : "/verif/known_findings.txt");
      std::string line;
      while (std::getline(f, line)) {
        if (line.rfind("finding:", 0)) continue;
        std::string pp = "property=" + c.id + " ";
        size_t k = line.find(pp);
        if (k == std::string::npos) continue;
        size_t kk = line.find("key=", k);
        if (kk == std::string::npos) continue;
        size_t e = line.find(" :: ", kk);
        known.push_back({line.substr(kk + 4, e == std::string::npos ? std::string::npos : e - kk - 4), e == std::string::npos ? "" : line.substr(e + 4)});
      }
    }
    int nviol = 0, unconf = 0;
    std::set<std::string> kf_seen;
    for (auto& b : by) {
      bool is_known = false;
      std::string text;
      for (auto& k : known) if (k.first == b.first) { is_known = true; text = k.second; }
      bool confirmed = false;
      Found shown = b.second[0];
      for (size_t i = 0; i < b.second.size() && i < 4 && !confirmed; i++) {
        double tmo = b.first == "hang" ? 3 * c.case_timeout : 2 * c.case_timeout;
        for (auto& r : isolated(b.second[i].idx, tmo))
          if (r.key == b.first || (b.first == "crash" && r.key == "hang")) { confirmed = true; shown = r; break; }
      }
      if (!confirmed) { unconf++; fprintf(stdout, "note: %s: key '%s' not reproduced in isolation (%zu cases, first %s); not reported\n", c.id.c_str(), b.first.c_str(), b.second.size(), name(b.second[0].idx).c_str()); continue; }
      if (is_known) {
        if (kf_seen.insert(b.first).second) printf("KNOWN-FINDING: property=%s key=%s %s (%zu cases)\n", c.id.c_str(), b.first.c_str(), text.c_str(), b.second.size());
        continue;
      }
      nviol++;
      std::string rp = outdir + strf("/replay_%d.txt", nviol);
      std::ofstream r(rp);
      r << "property: " << c.id << "\nkey: " << b.first << "\nwhat: " << shown.msg << "\ncase: " << name(shown.idx)
        << "\ncases with this key: " << b.second.size() << "\nreplay: python3 /verif/check.py " << c.id << " " << tier << " --replay " << shown.idx << "\n";
      r.close();
      printf("VIOLATION property=%s replay=%s\n", c.id.c_str(), rp.c_str());
      printf("  key=%s cases=%zu\n  case=%s\n  %s\n", b.first.c_str(), b.second.size(), name(shown.idx).c_str(), shown.msg.c_str());
    }
    bool complete = done + crashes >= total && !gave_up;
    double wall = now() - t0;
    // evidence
    const char* evd = getenv("VF_EVIDENCE");
    std::string evdir = evd ? evd : "/verif/evidence";
    if (system(("mkdir -p '" + evdir + "'").c_str())) return 3;
    std::ofstream ev(evdir + "/" + c.id + ".json");
    const char* seed = getenv("VERIF_SEED");
    ev << "{\n \"property\": \"" << c.id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << (seed ? atoi(seed) : 1)
       << ",\n \"level\": \"" << c.level << "\",\n \"coverage\": {\n";
    ev << "  \"cases_total\": " << total << ",\n  \"cases_run\": " << done << ",\n";
    ev << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << outs.size() << ",\n";
    if (c.level == "model_checking")
      ev << "  \"states\": " << states << ",\n  \"transitions\": " << trans << ",\n  \"traces_validated_against_impl\": " << traces << ",\n";
    else if (states) ev << "  \"states_visited\": " << states << ",\n  \"transitions_taken\": " << trans << ",\n";
    ev << "  \"inconclusive\": " << skipped << ",\n";
    ev << "  \"rule\": \"" << jesc(c.rule) << "\",\n  \"exhaustive\": " << (complete ? "true" : "false") << ",\n";
    ev << "  \"spaces\": {";
    for (size_t i = 0; i < sp.size(); i++) ev << (i ? ", " : "") << "\"" << jesc(sp[i].name) << "\": " << sp[i].count;
    ev << "},\n  \"tally\": {";
    bool first = true;
    for (auto& t : tally) { ev << (first ? "" : ", ") << "\"" << jesc(t.first) << "\": " << t.second; first = false; }
    ev << "},\n  \"samples\": [";
    if (samples.empty()) for (uint64_t k = 0; k < 3 && total; k++) samples.push_back(name(total * k / 3));
    for (size_t i = 0; i < samples.size(); i++) ev << (i ? ", " : "") << "\"" << jesc(samples[i]) << "\"";
    ev << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < c.assumptions.size(); i++) ev << (i ? ", " : "") << "\"" << jesc(c.assumptions[i]) << "\"";
    ev << "],\n \"wall_s\": " << strf("%.2f", wall) << ",\n \"violations\": " << nviol << "\n}\n";
    ev.close();
    printf("%s %s: %llu/%llu cases, %llu evaluations, %llu states, %llu transitions, %zu distinct outcomes, %llu inconclusive, %d violations, %.1f s%s\n",
           c.id.c_str(), tier.c_str(), (unsigned long long)done, (unsigned long long)total, (unsigned long long)evals,
           (unsigned long long)states, (unsigned long long)trans, outs.size(), (unsigned long long)skipped, nviol, wall, complete ? "" : " (capped)");
    if (getenv("VF_TALLY")) for (auto& t : tally) printf("   %-40s %llu\n", t.first.c_str(), (unsigned long long)t.second);
    return nviol ? 1 : 0;
  }
};

int vf_main(int argc, char** argv, const Check& c) {
  setvbuf(stdout, 0, _IOLBF, 0);
  std::string tier = "quick";
  if (argc > 1) tier = argv[1];
  Explorer e(c, tier);
  if (argc > 3 && !strcmp(argv[2], "--replay")) {
    uint64_t idx = strtoull(argv[3], 0, 10);
    printf("case %s\n", e.name(idx).c_str());
    if (getenv("VF_INPROC")) {
      Ctx x; x.tier = tier; x.replay = true;
      e.run_one(idx, x);
      for (auto& v : x.viols) printf("VIOLATION-REPLAY key=%s %s\n", v.first.c_str(), v.second.c_str());
      return x.viols.empty() ? 0 : 1;
    }
    auto r = e.isolated(idx, 3 * c.case_timeout);
    for (auto& f : r) printf("VIOLATION-REPLAY key=%s %s\n", f.key.c_str(), f.msg.c_str());
    return r.empty() ? 0 : 1;
  }
  return e.explore();
}

// ---------------------------------------------------------------- problems
std::string Prob::str() const {
  return strf("n=%d m=%d P=%s q=%s A=%s l=%s u=%s", n, m, vecstr(P).c_str(), vecstr(q).c_str(), vecstr(A).c_str(), vecstr(l).c_str(), vecstr(u).c_str());
}
void csc_from(Csc& c, int m, int n, const std::vector<double>& d, const std::vector<char>& mask, bool triu) {
  c.p.clear(); c.i.clear(); c.x.clear(); c.pos.clear();
  c.p.push_back(0);
  for (int j = 0; j < n; j++) {
    for (int i = 0; i < m; i++) {
      if (triu && i > j) continue;
      bool in = mask.empty() ? d[i * n + j] != 0 : mask[i * n + j] != 0;
      if (in) { c.i.push_back(i); c.x.push_back((OSQPFloat)d[i * n + j]); c.pos.push_back({i, j}); }
    }
    c.p.push_back((OSQPInt)c.i.size());
  }
  c.i.shrink_to_fit(); c.x.shrink_to_fit(); c.p.shrink_to_fit();
  c.M.m = m; c.M.n = n; c.M.p = c.p.data(); c.M.i = c.i.data(); c.M.x = c.x.data();
  c.M.nzmax = (OSQPInt)c.i.size(); c.M.nz = -1; c.M.owned = 0;
}
OSQPSettings base_settings(Lib* L) {
  OSQPSettings s;
  memset(&s, 0, sizeof s);
  L->osqp_set_default_settings(&s);
  s.verbose = 0;
  return s;
}
Run::Run(Lib* lib, const Prob& p, const OSQPSettings& st, bool do_setup) : L(lib), pr(p) {
  csc_from(P, p.n, p.n, p.P, p.Pm, true);
  csc_from(A, p.m, p.n, p.A, p.Am, false);
  if (do_setup)
    rc = L->osqp_setup(&s, &P.M, pr.q.data(), &A.M, pr.l.data(), pr.u.data(), p.m, p.n, &st);
}
Run::~Run() { if (s) L->osqp_cleanup(s); }
static std::vector<double> cp(const OSQPFloat* p, int n) { return std::vector<double>(p, p + n); }
std::vector<double> Run::x() const { return cp(s->solution->x, pr.n); }
std::vector<double> Run::y() const { return cp(s->solution->y, pr.m); }
std::vector<double> Run::pc() const { return cp(s->solution->prim_inf_cert, pr.m); }
std::vector<double> Run::dc() const { return cp(s->solution->dual_inf_cert, pr.n); }

std::vector<double> matvec(const std::vector<double>& A, int m, int n, const std::vector<double>& x) {
  std::vector<double> r(m);
  for (int i = 0; i < m; i++) { long double s = 0; for (int j = 0; j < n; j++) s += (long double)A[i * n + j] * x[j]; r[i] = (double)s; }
  return r;
}
std::vector<double> matTvec(const std::vector<double>& A, int m, int n, const std::vector<double>& y) {
  std::vector<double> r(n);
  for (int j = 0; j < n; j++) { long double s = 0; for (int i = 0; i < m; i++) s += (long double)A[i * n + j] * y[i]; r[j] = (double)s; }
  return r;
}
double ninf(const std::vector<double>& v) { double r = 0; for (double a : v) { if (!(std::fabs(a) <= r)) r = std::fabs(a); } return r; }
double dot(const std::vector<double>& a, const std::vector<double>& b) { long double s = 0; for (size_t i = 0; i < a.size(); i++) s += (long double)a[i] * b[i]; return (double)s; }
double maxdiff(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return INFINITY;
  double r = 0;
  for (size_t i = 0; i < a.size(); i++) { double d = a[i] == b[i] ? 0 : std::fabs(a[i] - b[i]); if (!(d <= r)) r = d; }
  return r;
}
bool same_bits(const std::vector<double>& a, const std::vector<double>& b) {
  return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double)));
}
Kkt kkt(const Prob& p, const std::vector<double>& x, const std::vector<double>& y) {
  Kkt k{};
  auto Ax = matvec(p.A, p.m, p.n, x);
  auto Px = matvec(p.P, p.n, p.n, x);
  auto Aty = matTvec(p.A, p.m, p.n, y);
  double nz = 0;
  for (int i = 0; i < p.m; i++) {
    double z = std::min(std::max(Ax[i], p.l[i]), p.u[i]);
    double d = std::fabs(Ax[i] - z);
    if (!(d <= k.prim)) k.prim = d;
    nz = std::max(nz, std::fabs(z));
  }
  for (int j = 0; j < p.n; j++) { double d = std::fabs(Px[j] + p.q[j] + Aty[j]); if (!(d <= k.dual)) k.dual = d; }
  k.nAx = ninf(Ax); k.nz = nz; k.nPx = ninf(Px); k.nAty = ninf(Aty); k.nq = ninf(p.q);
  k.xPx = dot(x, Px); k.qx = dot(p.q, x);
  long double sc = 0;
  for (int i = 0; i < p.m; i++) {
    if (y[i] > 0) { if (isinf_b(p.u[i])) k.compl_sign = std::max(k.compl_sign, y[i]); else sc += (long double)p.u[i] * y[i]; }
    if (y[i] < 0) { if (isinf_b(p.l[i])) k.compl_sign = std::max(k.compl_sign, -y[i]); else sc += (long double)p.l[i] * y[i]; }
  }
  k.sc = (double)sc;
  k.pobj = 0.5 * k.xPx + k.qx;
  k.dobj = -0.5 * k.xPx - k.sc;
  k.gap = k.xPx + k.qx + k.sc;
  return k;
}

// ---------------------------------------------------------------- exact oracle
typedef __int128 I;
struct Overflow {};
static I iabs(I a) { return a < 0 ? -a : a; }
static I gcdi(I a, I b) { a = iabs(a); b = iabs(b); while (b) { I t = a % b; a = b; b = t; } return a; }
struct Q {
  I a, b;
  Q(long long v = 0) : a(v), b(1) {}
  Q(I x, I y) { if (y < 0) { x = -x; y = -y; } I g = gcdi(x, y); if (g > 1) { x /= g; y /= g; } a = x; b = y;
    if (iabs(a) > ((I)1 << 60) || b > ((I)1 << 60)) throw Overflow(); }
  Q operator+(const Q& o) const { return Q(a * o.b + o.a * b, b * o.b); }
  Q operator-(const Q& o) const { return Q(a * o.b - o.a * b, b * o.b); }
  Q operator*(const Q& o) const { return Q(a * o.a, b * o.b); }
  Q operator/(const Q& o) const { return Q(a * o.b, b * o.a); }
  bool zero() const { return a == 0; }
  int sgn() const { return a > 0 ? 1 : a < 0 ? -1 : 0; }
  double d() const { return (double)a / (double)b; }
};
static Q toq(double v) {
  for (long long den : {1LL, 2LL, 4LL, 8LL, 16LL, 10LL, 100LL, 1000LL}) {
    double t = v * den;
    if (std::fabs(t) < 1e12 && t == std::floor(t)) return Q((I)(long long)t, (I)den);
  }
  throw Overflow();
}
// solve M z = r; returns rank, or -1 if inconsistent; particular solution with free variables 0
static int gauss(std::vector<std::vector<Q>> M, std::vector<Q> r, std::vector<Q>& z) {
  int R = (int)M.size(), C = R ? (int)M[0].size() : (int)z.size(), rk = 0;
  std::vector<int> piv;
  for (int c = 0; c < C && rk < R; c++) {
    int p = -1;
    for (int i = rk; i < R; i++) if (!M[i][c].zero()) { p = i; break; }
    if (p < 0) continue;
    std::swap(M[p], M[rk]); std::swap(r[p], r[rk]);
    for (int i = 0; i < R; i++) if (i != rk && !M[i][c].zero()) {
      Q f = M[i][c] / M[rk][c];
      for (int k = c; k < C; k++) M[i][k] = M[i][k] - f * M[rk][k];
      r[i] = r[i] - f * r[rk];
    }
    piv.push_back(c); rk++;
  }
  for (int i = rk; i < R; i++) if (!r[i].zero()) return -1;
  z.assign(C, Q(0));
  for (int i = 0; i < rk; i++) z[piv[i]] = r[i] / M[i][piv[i]];
  return rk;
}
static bool kkt_point(const std::vector<std::vector<Q>>& P, const std::vector<Q>& q, const std::vector<std::vector<Q>>& A,
                      const std::vector<double>& l, const std::vector<double>& u, int n, int m,
                      std::vector<Q>& x, std::vector<Q>& y) {
  std::vector<int> st(m, 0);  // 0 inactive, 1 at l, 2 at u
  std::vector<Q> lq(m), uq(m);
  for (int i = 0; i < m; i++) { if (!isinf_b(l[i])) lq[i] = toq(l[i]); if (!isinf_b(u[i])) uq[i] = toq(u[i]); }
  long N = 1;
  for (int i = 0; i < m; i++) N *= 3;
  for (long c = 0; c < N; c++) {
    long t = c;
    bool ok = true;
    std::vector<int> W;
    for (int i = 0; i < m; i++) {
      st[i] = t % 3; t /= 3;
      if (st[i] == 1 && isinf_b(l[i])) ok = false;
      if (st[i] == 2 && isinf_b(u[i])) ok = false;
      if (st[i] == 2 && l[i] == u[i]) ok = false;  // equality: use state 1 only
      if (st[i]) W.push_back(i);
    }
    if (!ok || (int)W.size() > n) continue;
    int k = (int)W.size();
    std::vector<std::vector<Q>> M(n + k, std::vector<Q>(n + k, Q(0)));
    std::vector<Q> r(n + k), z(n + k);
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) M[i][j] = P[i][j]; r[i] = Q(0) - q[i]; }
    for (int w = 0; w < k; w++) {
      for (int j = 0; j < n; j++) { M[n + w][j] = A[W[w]][j]; M[j][n + w] = A[W[w]][j]; }
      r[n + w] = st[W[w]] == 1 ? lq[W[w]] : uq[W[w]];
    }
    if (gauss(M, r, z) < 0) continue;
    x.assign(z.begin(), z.begin() + n);
    y.assign(m, Q(0));
    for (int w = 0; w < k; w++) y[W[w]] = z[n + w];
    for (int i = 0; i < m && ok; i++) {
      Q ax(0);
      for (int j = 0; j < n; j++) ax = ax + A[i][j] * x[j];
      if (!isinf_b(l[i]) && (ax - lq[i]).sgn() < 0) ok = false;
      if (!isinf_b(u[i]) && (ax - uq[i]).sgn() > 0) ok = false;
      if (l[i] != u[i]) {
        if (st[i] == 1 && y[i].sgn() > 0) ok = false;
        if (st[i] == 2 && y[i].sgn() < 0) ok = false;
      }
    }
    if (ok) return true;
  }
  return false;
}
Exact exact_solve(const Prob& p) {
  Exact e;
  try {
    int n = p.n, m = p.m;
    std::vector<std::vector<Q>> P(n, std::vector<Q>(n)), A(m, std::vector<Q>(n)), I1(n, std::vector<Q>(n, Q(0)));
    std::vector<Q> q(n), z0(n, Q(0)), x, y;
    for (int i = 0; i < n; i++) { I1[i][i] = Q(1); q[i] = toq(p.q[i]); for (int j = 0; j < n; j++) P[i][j] = toq(p.P[i * n + j]); }
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = toq(p.A[i * n + j]);
    for (int i = 0; i < m; i++) if (p.l[i] > p.u[i]) return e;
    if (kkt_point(P, q, A, p.l, p.u, n, m, x, y)) {
      e.t = T_SOLVABLE; e.prim_feasible = true;
      for (auto& v : x) e.x.push_back(v.d());
      for (auto& v : y) e.y.push_back(v.d());
      Q o(0);
      for (int i = 0; i < n; i++) { o = o + q[i] * x[i]; for (int j = 0; j < n; j++) o = o + Q((I)1, (I)2) * P[i][j] * x[i] * x[j]; }
      e.obj = o.d();
      // unique if null(P) and q, A leave no direction: sufficient test, P positive definite
      std::vector<Q> zz(n);
      e.x_unique = gauss(P, z0, zz) == n;
      return e;
    }
    e.prim_feasible = kkt_point(I1, z0, A, p.l, p.u, n, m, x, y);
    e.t = e.prim_feasible ? T_DUAL_INF : T_PRIMAL_INF;
  } catch (Overflow&) { e.t = T_UNKNOWN; }
  return e;
}
double min_eig(std::vector<double> S, int n) {
  // Jacobi rotations
  for (int sweep = 0; sweep < 60; sweep++) {
    double off = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) off += S[i * n + j] * S[i * n + j];
    if (off < 1e-300) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      double a = S[p * n + q];
      if (a == 0) continue;
      double th = (S[q * n + q] - S[p * n + p]) / (2 * a), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < n; k++) { double x = S[k * n + p], y = S[k * n + q]; S[k * n + p] = c * x - s * y; S[k * n + q] = s * x + c * y; }
      for (int k = 0; k < n; k++) { double x = S[p * n + k], y = S[q * n + k]; S[p * n + k] = c * x - s * y; S[q * n + k] = s * x + c * y; }
    }
  }
  double r = INFINITY;
  for (int i = 0; i < n; i++) r = std::min(r, S[i * n + i]);
  return r;
}
bool is_psd_int(const std::vector<double>& P, int n, double shift) {
  std::vector<double> S = P;
  for (int i = 0; i < n; i++) S[i * n + i] += shift;
  return min_eig(S, n) >= -1e-9;
}

// ---------------------------------------------------------------- families
const std::vector<Bnd> BND_ALL = {{0, 0}, {1, 1}, {-1, 1}, {1, INF}, {-INF, -1}, {-INF, INF}, {-2, -1}, {0, INF}, {-INF, 1}, {1, 2}};
const std::vector<Bnd> BND_CORE = {{1, 1}, {-1, 1}, {1, INF}, {-INF, -1}, {-INF, INF}};
static uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }
uint64_t Family::count() const {
  return Ps.size() * ipow(qs.size(), n) * ipow(as.size(), n * m) * ipow(bs.size(), m);
}
Prob Family::get(uint64_t idx) const {
  Dec d(idx);
  Prob p;
  p.n = n; p.m = m;
  p.P = Ps[d.take(Ps.size())];
  for (int i = 0; i < n; i++) p.q.push_back(qs[d.take(qs.size())]);
  for (int i = 0; i < n * m; i++) p.A.push_back(as[d.take(as.size())]);
  for (int i = 0; i < m; i++) { const Bnd& b = bs[d.take(bs.size())]; p.l.push_back(b.l); p.u.push_back(b.u); }
  if (pat) { p.Pm.assign(n * n, 1); p.Am.assign(n * m, 1); }
  return p;
}
std::vector<std::vector<double>> psd_set(int n, bool full) {
  if (n == 1) return {{0}, {1}, {2}};
  if (n == 2) {
    std::vector<std::vector<double>> v = {{0, 0, 0, 0}, {1, 0, 0, 1}, {2, 1, 1, 2}, {1, 1, 1, 1}, {1, 0, 0, 0}};
    if (full) { v.push_back({0, 0, 0, 1}); v.push_back({1, -1, -1, 1}); v.push_back({2, 0, 0, 1}); v.push_back({1, -1, -1, 2}); }
    return v;
  }
  return {{0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 1, 0, 0, 0, 1}, {2, 1, 0, 1, 2, 1, 0, 1, 2}, {1, 1, 0, 1, 1, 0, 0, 0, 0}};
}
Family family(const std::string& w) {
  Family f;
  f.name = w;
  auto set = [&](int n, int m, bool fullP, std::vector<double> q, std::vector<double> a, std::vector<Bnd> b) {
    f.n = n; f.m = m; f.Ps = psd_set(n, fullP); f.qs = q; f.as = a; f.bs = b;
  };
  if (w == "n1m0") set(1, 0, true, {-1, 0, 1}, {0}, BND_ALL);
  else if (w == "n2m0") set(2, 0, true, {-1, 0, 1}, {0}, BND_ALL);
  else if (w == "n1m1") set(1, 1, true, {-1, 0, 1, 2}, {-1, 0, 1, 2}, BND_ALL);
  else if (w == "n1m2") set(1, 2, true, {-1, 0, 1}, {-1, 0, 1, 2}, BND_ALL);
  else if (w == "n2m1") set(2, 1, true, {-1, 0, 1}, {-1, 0, 1, 2}, BND_ALL);
  // bounds around the thresholds at which a row counts as an equality or as free
  else if (w == "edge1") set(1, 1, true, {-1, 0, 1}, {-1, 0, 1, 2}, {{1, 1.00005}, {1, 1.0002}, {1, 1.001}, {0, 0.01}, {-1e5, 1e5}, {-1e27, 1e27}, {-1e27, -1}, {1, 1e27}});
  else if (w == "edge2") set(1, 2, true, {-1, 1}, {0, 1, 2}, {{1, 1.00005}, {1, 1.001}, {-1e27, 1}, {-1e27, 1e27}, {0, 1e27}});
  else if (w == "n2m2s") set(2, 2, false, {0, 1}, {-1, 0, 1}, BND_CORE);          // 5*4*81*25 = 40500
  else if (w == "n2m2") set(2, 2, true, {-1, 0, 1}, {-1, 0, 1}, BND_ALL);         // 9*9*81*100 = 656100
  else if (w == "n2m3") set(2, 3, false, {0, 1}, {0, 1}, BND_CORE);               // 5*4*64*125 = 160000
  else if (w == "n3m1") set(3, 1, true, {-1, 0, 1}, {-1, 0, 1}, BND_CORE);        // 4*27*27*5 = 14580
  else if (w == "n3m2") set(3, 2, true, {0, -1}, {0, 1}, BND_CORE);               // 4*8*64*25 = 51200
  else if (w == "scaled") { set(2, 2, false, {1, -1000}, {0, 1, 0.01, -1000}, {{1, 1}, {-1000, 1}, {1, INF}, {-INF, -1}}); 
    f.Ps = {{1, 0, 0, 1}, {1000, 0, 0, 0.01}, {0, 0, 0, 0}, {200, 1, 1, 0.01}}; }   // 4*4*256*16 = 65536
  else if (w == "scaled_s") { set(2, 1, false, {1, -1000}, {0, 1, 0.01, -1000}, {{1, 1}, {-1000, 1}, {1, INF}, {-INF, -1}});
    f.Ps = {{1, 0, 0, 1}, {1000, 0, 0, 0.01}, {0, 0, 0, 0}, {200, 1, 1, 0.01}}; }   // 4*4*16*4 = 1024
  else { fprintf(stderr, "no family %s\n", w.c_str()); _exit(4); }
  return f;
}
std::string status_name(int s) {
  switch (s) {
    case OSQP_SOLVED: return "solved"; case OSQP_SOLVED_INACCURATE: return "solved_inaccurate";
    case OSQP_PRIMAL_INFEASIBLE: return "primal_infeasible"; case OSQP_PRIMAL_INFEASIBLE_INACCURATE: return "primal_infeasible_inaccurate";
    case OSQP_DUAL_INFEASIBLE: return "dual_infeasible"; case OSQP_DUAL_INFEASIBLE_INACCURATE: return "dual_infeasible_inaccurate";
    case OSQP_MAX_ITER_REACHED: return "max_iter"; case OSQP_TIME_LIMIT_REACHED: return "time_limit"; case OSQP_NON_CVX: return "non_cvx";
    case OSQP_SIGINT: return "sigint"; case OSQP_UNSOLVED: return "unsolved"; }
  return strf("status%d", s);
}

bool has_sol(int s) {
  return s != OSQP_PRIMAL_INFEASIBLE && s != OSQP_PRIMAL_INFEASIBLE_INACCURATE && s != OSQP_DUAL_INFEASIBLE &&
         s != OSQP_DUAL_INFEASIBLE_INACCURATE && s != OSQP_NON_CVX;
}
std::string expected_status_string(int s) {
  switch (s) {
    case OSQP_SOLVED: return "solved"; case OSQP_SOLVED_INACCURATE: return "solved inaccurate";
    case OSQP_PRIMAL_INFEASIBLE: return "primal infeasible"; case OSQP_PRIMAL_INFEASIBLE_INACCURATE: return "primal infeasible inaccurate";
    case OSQP_DUAL_INFEASIBLE: return "dual infeasible"; case OSQP_DUAL_INFEASIBLE_INACCURATE: return "dual infeasible inaccurate";
    case OSQP_MAX_ITER_REACHED: return "maximum iterations reached"; case OSQP_TIME_LIMIT_REACHED: return "run time limit reached";
    case OSQP_NON_CVX: return "problem non convex"; case OSQP_SIGINT: return "interrupted"; case OSQP_UNSOLVED: return "unsolved"; }
  return "?";
}
void check_info(Ctx& x, Run& r, const std::string& who, const std::string& tag) {
  const OSQPInfo& I = *r.s->info;
  int st = (int)I.status_val;
  if (expected_status_string(st) != I.status)
    x.viol("status_string" + tag, "%s: status code %d comes with the string '%s'; %s", who.c_str(), st, I.status, r.pr.str().c_str());
  if (!has_sol(st)) return;
  auto X = r.x(), Y = r.y();
  Kkt k = kkt(r.pr, X, Y);
  double ny = ninf(Y), nx = ninf(X), nA = ninf(r.pr.A), nP = ninf(r.pr.P);
  double big = 1 + k.nAx + k.nPx + k.nAty + k.nq;
  double sm = 1e-9 * big + 1e-11 * (ny * (1 + nA) + nx * (1 + nP + nA));
  double bm = 0;
  for (int i = 0; i < r.pr.m; i++) { if (!isinf_b(r.pr.l[i])) bm = std::max(bm, std::fabs(r.pr.l[i])); if (!isinf_b(r.pr.u[i])) bm = std::max(bm, std::fabs(r.pr.u[i])); }
  double so = 1e-7 * (1 + std::fabs(k.xPx) + std::fabs(k.qx) + std::fabs(k.sc)) + 1e-9 * ny * bm;
  auto bad = [&](const char* key, double got, double want) {
    x.viol(std::string(key) + tag, "%s: %s reported %.10g, the returned vectors give %.10g (status %s, iter %d, polish %d, x=%s y=%s); %s", who.c_str(), key, got, want,
           status_name(st).c_str(), (int)I.iter, (int)I.status_polish, vecstr(X).c_str(), vecstr(Y).c_str(), r.pr.str().c_str());
  };
  if (!close(I.obj_val, k.pobj, 0, so)) bad("obj_val", I.obj_val, k.pobj);
  if (!close(I.dual_obj_val, k.dobj, 0, so)) bad("dual_obj_val", I.dual_obj_val, k.dobj);
  if (!close(I.duality_gap, k.gap, 0, so)) bad("duality_gap", I.duality_gap, k.gap);
  if (!close(I.dual_res, k.dual, 0, sm)) bad("dual_res", I.dual_res, k.dual);
  // |Ax - z| for some z in [l,u]
  if (!(I.prim_res >= k.prim - sm)) bad("prim_res", I.prim_res, k.prim);
  double e1 = std::max(std::max(I.prim_res, I.dual_res), I.duality_gap), e2 = std::max(std::max(I.prim_res, I.dual_res), std::fabs(I.duality_gap));
  if (!close(I.rel_kkt_error, e1, 0, sm + so) && !close(I.rel_kkt_error, e2, 0, sm + so)) bad("rel_kkt_error", I.rel_kkt_error, e2);
}
