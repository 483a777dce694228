// hx: runs workloads under their monitors in worker processes, collects what was observed.
#include "oracles.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fstream>
#include <sstream>
static const int EX_HANG = 77, EX_VIOL = 78;
struct Slot { std::atomic<long> idx; std::atomic<int> state; char msg[4096]; };
struct Shared { std::atomic<long> next; std::atomic<int> stop; Slot slot[64]; };
static Shared *sh;
static int g_case_cpu = 20;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void on_prof(int) { _exit(EX_HANG); }
static void arm(int sec) { itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr); }
static Sub *find(const std::string &n) { for (auto &s : SUBS) if (n == s.name) return &s; return nullptr; }
static uint64_t subseed(const char *n) { uint64_t h = 1469598103934665603ull; for (; *n; n++) { h ^= (unsigned char)*n; h *= 1099511628211ull; } return h; }
static void make(Sub *s, uint64_t seed, long idx, Case &c) { Rng r(seed, (uint64_t)idx, subseed(s->name)); c = Case(); s->gen(r, (uint64_t)idx, c); c.oracle = s->name;
  bound_rescans(c);
}
// run one case in a forked child; returns 0 held, 1 violation, 2 crash, 3 hang; detail in msg
static int isolated(Sub *s, const Case &c, std::string &msg, int cpu, bool quiet = true) {
  int pf[2]; if (pipe(pf)) return 4;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    close(pf[0]); if (quiet) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); } 
    dup2(pf[1], 2);
    signal(SIGPROF, on_prof); arm(cpu);
    std::string v = s->check(c);
    if (!v.empty()) { (void)!write(pf[1], v.data(), std::min<size_t>(v.size(), 60000)); _exit(EX_VIOL); }
    _exit(0);
  }
  close(pf[1]); msg.clear(); char b[4096]; ssize_t k;
  while ((k = read(pf[0], b, sizeof b)) > 0) if (msg.size() < 200000) msg.append(b, k);
  close(pf[0]); int st; waitpid(p, &st, 0);
  if (WIFEXITED(st)) { int e = WEXITSTATUS(st); if (e == 0) return 0; if (e == EX_VIOL) return 1; if (e == EX_HANG) return 3; msg += "\n[exit status " + std::to_string(e) + "]"; return 2; }
  msg += "\n[killed by signal " + std::to_string(WTERMSIG(st)) + "]"; 
  if (WTERMSIG(st) == SIGKILL) return 4;
  return 2;
}
static void shrink(Sub *s, Case &c, int kind, double secs) {
  for (auto &d : c.docs) if (d.sysid == "\x01want") return;
  double t0 = now(); std::string m;
  auto fails = [&](const Case &k) { return isolated(s, k, m, g_case_cpu) == kind; };
  auto try_ = [&](Case k) { if (now() - t0 > secs) return false; if (fails(k)) { c = k; return true; } return false; };
  bool any = true;
  while (any && now() - t0 < secs) {
    any = false;
    for (size_t i = 1; i < c.docs.size(); i++) { Case k = c; k.docs.erase(k.docs.begin() + i); if (try_(k)) { any = true; i--; } }
    for (size_t i = 0; i < c.acts.size(); i++) { Case k = c; k.acts.erase(k.acts.begin() + i); if (try_(k)) { any = true; i--; } }
    for (size_t i = 0; i < c.docs.size(); i++) if (!c.docs[i].chunks.empty()) { Case k = c; k.docs[i].chunks.clear(); if (try_(k)) any = true; else { Case q = c; int n = (int)c.docs[i].chunks.size(); if (n > 1) { q.docs[i].chunks.resize(n / 2); if (try_(q)) any = true; } } }
    for (size_t i = 0; i < c.docs.size(); i++) if (c.docs[i].mode) { Case k = c; k.docs[i].mode = 0; if (try_(k)) any = true; }
    for (auto f : {0, 1, 2, 3, 4}) { Case k = c; if (f == 0) k.trip = 0; if (f == 1) k.foreign = 0; if (f == 2) k.ns = 0; if (f == 3) k.pe = 0; if (f == 4) k.base = ""; if (k.ser() != c.ser() && try_(k)) any = true; }
    for (size_t i = 0; i < c.docs.size(); i++)
      for (size_t step = std::max<size_t>(1, c.docs[i].data.size() / 2); step >= 1; step /= 2) {
        for (size_t p = 0; p < c.docs[i].data.size();) { Case k = c; k.docs[i].data.erase(p, step); if (try_(k)) any = true; else p += step; if (now() - t0 > secs) break; }
        if (step == 1) break;
      }
  }
}
static void worker(Sub *s, uint64_t seed, int w, long n, double until) {
  signal(SIGPROF, on_prof); Case c;
  while (!sh->stop) {
    if (now() > until) break;
    long i = sh->next++; if (i >= n) break;
    sh->slot[w].idx = i; sh->slot[w].state = 1; arm(g_case_cpu);
    make(s, seed, i, c);
    std::string v = s->check(c);
    if (!v.empty()) { strncpy(sh->slot[w].msg, v.c_str(), 4000); sh->slot[w].msg[4000] = 0; _exit(EX_VIOL); }
    sh->slot[w].state = 0;
  }
  _exit(0);
}
static std::string jesc(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 0x20 || c >= 0x7f) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o; }
static std::string slurp(const char *f) { std::ifstream i(f, std::ios::binary); std::stringstream b; b << i.rdbuf(); return b.str(); }
int main(int argc, char **argv) {
  std::string cmd = argc > 1 ? argv[1] : "", sub, json, rdir = ".", file; uint64_t seed = 1; long n = 1000; double secs = 60; int jobs = 8, maxviol = 3; double shrinks = 10; bool dump = false;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--sub") sub = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--n") n = atol(nx().c_str()); else if (a == "--secs") secs = atof(nx().c_str());
    else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--json") json = nx(); else if (a == "--replays") rdir = nx(); else if (a == "--maxviol") maxviol = atoi(nx().c_str()); else if (a == "--shrink") shrinks = atof(nx().c_str());
    else if (a == "--cpu") g_case_cpu = atoi(nx().c_str()); else if (a == "--tier") g_tier = nx() == "thorough"; else if (a == "--dump") dump = true; else file = a;
  }
  g_stats = (Stats *)mmap(0, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (cmd == "list") { for (auto &s : SUBS) printf("%s %ld\n", s.name, s.total); return 0; }
  if (cmd == "gen") { Sub *s = find(sub); if (!s) return 2; Case c; make(s, seed, n, c); fputs(c.ser().c_str(), stdout); return 0; }
  if (cmd == "replay" || cmd == "trace" || cmd == "shrink") {
    Case c; if (!Case::parse(slurp(file.c_str()), c)) { fprintf(stderr, "cannot read case %s\n", file.c_str()); return 2; }
    Sub *s = find(sub.empty() ? c.oracle : sub); if (!s) { fprintf(stderr, "no oracle %s\n", c.oracle.c_str()); return 2; }
    if (cmd == "trace") { Trace t; if (!(c.flags & F_ZEROOK)) { printf("--- reference\n"); fflush(stdout); t = run_case(API_REF, c); fputs(t.render(c.flags).c_str(), stdout); } printf("--- rexpat\n"); fflush(stdout); t = run_case(API_SUT, c); fputs(t.render(c.flags).c_str(), stdout); for (auto &i : t.inv) printf("INV %s\n", i.c_str()); printf("leak %ld allocs %ld peak %ld\n", t.leak, t.allocs, t.peak); return 0; }
    std::string m; int k = isolated(s, c, m, g_case_cpu * 3);
    if (cmd == "shrink") { if (k == 1 || k == 2) shrink(s, c, k, shrinks); fputs(c.ser().c_str(), stdout); return 0; }
    static const char *const nm[] = {"HELD", "VIOLATED", "CRASH", "HANG", "INCONCLUSIVE"};
    printf("%s\n%s\n", nm[k], m.c_str()); return k == 0 ? 0 : 1;
  }
  if (cmd != "run") { fprintf(stderr, "usage: hx list|run|replay|trace|shrink|gen\n"); return 2; }
  Sub *s = find(sub); if (!s) { fprintf(stderr, "no sub %s\n", sub.c_str()); return 2; }
  if (s->total && n > s->total) n = s->total;
  double t0 = now(), until = t0 + secs;
  std::vector<pid_t> pid(jobs, 0); std::vector<std::string> viols; int inconclusive = 0; int ncrash = 0;
  auto spawn = [&](int w) { fflush(stdout); fflush(stderr); sh->slot[w].idx = -1; pid_t p = fork(); if (p == 0) { if (!getenv("HX_VERBOSE")) { int nl = open("/dev/null", O_WRONLY); dup2(nl, 2); } worker(s, seed, w, n, until); } pid[w] = p; };
  for (int w = 0; w < jobs; w++) spawn(w);
  int live = jobs;
  while (live > 0) {
    int st; pid_t p = wait(&st); if (p < 0) break;
    int w = -1; for (int k = 0; k < jobs; k++) if (pid[k] == p) w = k;
    if (w < 0) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; live--; continue; }
    long idx = sh->slot[w].idx; bool rerun = now() < until;
    if (idx >= 0 && (int)viols.size() < maxviol) {
      Case c; make(s, seed, idx, c); std::string m; int k = isolated(s, c, m, g_case_cpu * 3);
      if (k == 0 || k == 4) { inconclusive++; fprintf(stderr, "inconclusive: case %ld of %s failed in the pool (status %x) but not alone\n", idx, s->name, st); }
      else {
        if (shrinks > 0 && k != 3) { Case c2 = c; shrink(s, c2, k, shrinks); std::string m2; if (isolated(s, c2, m2, g_case_cpu) == k) { c = c2; m = m2; } }
        static const char *const nm[] = {"", "violation", "crash", "hang"};
        std::string text = std::string("# ") + nm[k] + " seed=" + std::to_string(seed) + " idx=" + std::to_string(idx) + "\n" + c.ser(); char fn[512]; uint64_t h = 0; for (unsigned char ch : text) h = h * 131 + ch;
        snprintf(fn, sizeof fn, "%s/%s-%08lx.case", rdir.c_str(), s->name, (unsigned long)(h & 0xffffffff));
        mkdir(rdir.c_str(), 0777); std::ofstream(fn) << text;
        if (m.size() > 3000) m = m.substr(0, 3000);
        printf("FAIL %s %s idx=%ld %s\n%s\n", s->name, nm[k], idx, fn, m.c_str()); fflush(stdout);
        viols.push_back(std::string("{\"kind\":\"") + nm[k] + "\",\"replay\":\"" + jesc(fn) + "\",\"detail\":\"" + jesc(m.substr(0, 1500)) + "\",\"case\":\"" + jesc(text.substr(0, 4000)) + "\"}");
      }
      ncrash++;
    }
    if ((int)viols.size() >= maxviol || ncrash > 40) { sh->stop = 1; rerun = false; }
    if (rerun) spawn(w); else { pid[w] = 0; live--; }
  }
  double wall = now() - t0; Stats &S = *g_stats;
  std::ostringstream o; long done = std::min(n, (long)sh->next);
  o << "{\"sub\":\"" << s->name << "\",\"seed\":" << seed << ",\"cases\":" << done << ",\"evaluations\":" << S.evals << ",\"nontrivial\":" << S.nontrivial << ",\"distinct\":" << S.distinct << ",\"runs\":" << S.runs << ",\"accepted\":" << S.accepted << ",\"rejected\":" << S.rejected << ",\"skipped\":" << S.skipped << ",\"suspensions\":" << S.suspensions << ",\"steps\":" << S.steps << ",\"total\":" << s->total << ",\"inconclusive\":" << inconclusive << ",\"wall\":" << wall;
  o << ",\"extra\":["; for (int i = 0; i < 16; i++) o << (i ? "," : "") << S.extra[i]; o << "],\"events\":{"; bool f = true;
  for (int i = 32; i < 127; i++) if (S.kinds[i]) { o << (f ? "" : ",") << "\"" << (i == '"' || i == '\\' ? "\\" : "") << (char)i << "\":" << S.kinds[i]; f = false; }
  o << "},\"errors\":{"; f = true; for (int i = 0; i < 64; i++) if (S.errs[i]) { o << (f ? "" : ",") << "\"" << i << "\":" << S.errs[i]; f = false; }
  o << "},\"samples\":["; for (long i = 0; i < 3 && i < done; i++) { Case c; make(s, seed, i * (done / 3), c); std::string t = c.ser(); if (t.size() > 1500) t = t.substr(0, 1500) + "..."; o << (i ? "," : "") << "\"" << jesc(t) << "\""; }
  o << "],\"violations\":["; for (size_t i = 0; i < viols.size(); i++) o << (i ? "," : "") << viols[i]; o << "]}";
  if (!json.empty()) std::ofstream(json) << o.str() << "\n"; 
  if (dump || json.empty()) { std::string t = o.str(); size_t p = t.find(",\"samples\""); printf("%s\n", t.substr(0, p).c_str()); }
  return viols.empty() ? 0 : 1;
}
