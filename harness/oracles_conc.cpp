// Several parsers at once: what one of them reports does not depend on the others.
//   inter    parsers on their own threads, one running at a time, the switches (also inside callbacks) chosen at random
//   threads  the same, all running at the same time (under the thread sanitizer: no data race in the library)
//   migrate  one parser whose pieces are given to it on changing threads, one after the other
// p: number of parsers, seed of the schedule, chance of a switch, then a seed for each parser's case
#include "oracles.h"
#include <thread>
typedef std::string str;
#include <mutex>
#include <condition_variable>
#include <barrier>
static void gen_one(uint64_t seed, Case &c) {
  Rng r(seed); common_cfg(r, c); if (r.chance(40)) c.handlers |= HB(H_DEFAULT); GenOpt o; o.ns = c.ns; o.invalid = 20; o.elems = r.range(2, 14); if (r.chance(20)) o.longtok = 40; o.dtd = 70; gen_case(r, o, c); random_chunks(r, c);
  if (r.chance(25)) for (auto &d : c.docs) { std::string t; if (transcode(d.data, r.pick({"UTF-16LE", "UTF-16BE", "UTF-8"}), t, true)) d.data = t; }
  if (r.chance(30)) for (int k = r.range(1, 3); k--;) { Act a; a.ev = r.below(20); a.kind = r.chance(70) ? A_STOP_RES : A_STOP_FIN; a.arg = 0; c.acts.push_back(a); }
}
struct Baton { std::mutex m; std::condition_variable cv; int turn = 0; std::vector<bool> alive; Rng r; int chance; long switches = 0; uint64_t sched = 0; Baton(uint64_t s) : r(s) {} };
struct Who { Baton *b; int me; };
static void take(Baton &b, int me) { std::unique_lock<std::mutex> l(b.m); b.cv.wait(l, [&] { return b.turn == me; }); }
static void pass(Baton &b, int me, bool leave) {
  { std::unique_lock<std::mutex> l(b.m); if (leave) b.alive[me] = false; std::vector<int> w; for (int i = 0; i < (int)b.alive.size(); i++) if (b.alive[i] && i != me) w.push_back(i); if (w.empty()) return; b.turn = w[b.r.below((uint32_t)w.size())]; b.switches++; b.sched = b.sched * 31 + b.turn + 1; b.cv.notify_all();
    if (!leave) b.cv.wait(l, [&] { return b.turn == me; }); }
}
static void on_cb(Runner &r, Event &) { Who *w = (Who *)r.hookArg; if ((int)w->b->r.below(100) < w->b->chance) pass(*w->b, w->me, false); }
static std::string compare(const std::vector<Case> &cs, const std::vector<Trace> &alone, const std::vector<Trace> &with) {
  for (size_t i = 0; i < cs.size(); i++) {
    if (alone[i].overflow) continue;
    if (!with[i].inv.empty()) return "parser " + std::to_string(i) + ": " + invs(with[i]);
    std::string d = first_diff(alone[i].render(cs[i].flags), with[i].render(cs[i].flags), "alone", "with the others"); if (!d.empty()) return "parser " + std::to_string(i) + " of " + std::to_string(cs.size()) + "\n" + d + cs[i].ser();
    if (with[i].leak != alone[i].leak) return "parser " + std::to_string(i) + ": library blocks still allocated: " + std::to_string(with[i].leak) + "\n";
  }
  return "";
}
static std::vector<Case> load(const Case &c) { std::vector<Case> cs; for (size_t i = 3; i < c.p.size() && (long)i < 3 + c.p[0]; i++) { Case k; gen_one((uint64_t)c.p[i], k); bound_rescans(k); cs.push_back(k); } return cs; }
static std::string chk_inter(const Case &c) {
  auto cs = load(c); int n = (int)cs.size(); std::vector<Trace> alone, with(n); for (auto &k : cs) alone.push_back(run_case(API_SUT, k));
  Baton b((uint64_t)c.p[1]); b.chance = (int)c.p[2]; b.alive.assign(n, true); std::vector<std::thread> t;
  for (int i = 0; i < n; i++) t.emplace_back([&, i] { take(b, i); Who w{&b, i}; { Runner r(API_SUT, cs[i]); r.hook = on_cb; r.hookArg = &w; with[i] = std::move(r.run()); } pass(b, i, true); });
  for (auto &x : t) x.join();
  g_stats->evals++; g_stats->extra[0] += b.switches; for (int i = 0; i < n; i++) g_stats->trace(with[i], cs[i].flags); if (b.switches > n) { g_stats->nontrivial++; g_stats->seen(b.sched); }
  return compare(cs, alone, with);
}
static std::string chk_threads(const Case &c) {
  auto cs = load(c); int n = (int)cs.size(); std::vector<Trace> alone, with(n); for (auto &k : cs) alone.push_back(run_case(API_SUT, k));
  std::barrier<> go(n); std::vector<std::thread> t; std::atomic<long> now{0}, most{0};
  for (int i = 0; i < n; i++) t.emplace_back([&, i] { go.arrive_and_wait(); long k = ++now; long m = most.load(); while (k > m && !most.compare_exchange_weak(m, k)) {} with[i] = run_case(API_SUT, cs[i]); now--; });
  for (auto &x : t) x.join();
  g_stats->evals++; g_stats->extra[1] += most > 1; for (int i = 0; i < n; i++) g_stats->trace(with[i], cs[i].flags);
  return compare(cs, alone, with);
}
static std::string chk_migrate(const Case &c) {
  Case k = c; k.flags &= ~F_MIGRATE; Trace a = run_case(API_SUT, k), b = run_case(API_SUT, c); if (a.overflow) { g_stats->skipped++; return ""; }
  g_stats->evals++; g_stats->trace(b, c.flags); g_stats->extra[2] += (long)c.docs[0].chunks.size();
  if (!b.inv.empty()) return invs(b);
  return first_diff(a.render(c.flags), b.render(c.flags), "on one thread", "on changing threads");
}
static void gen_conc(Rng &r, Case &c, int most) { int n = r.range(2, most); c.p.push_back(n); c.p.push_back((long)(r.next() >> 33)); c.p.push_back(r.pick(std::vector<int>{2, 10, 30, 60})); while (n--) c.p.push_back(r.chance(25) && c.p.size() > 3 ? c.p.back() : (long)(r.next() >> 33)); Doc d; c.docs.push_back(d); }
// --- parsers of external general entities are independent of their parents: parsed in the handler, after the parent is gone, or on another thread
struct Kids { int mode; std::thread::id main = std::this_thread::get_id(); std::mutex m; std::vector<std::unique_ptr<Runner>> r; std::vector<std::function<void()>> later; std::vector<std::thread> t; std::vector<std::string> path; std::atomic<long> live{0}; };
static int take_child(Runner &r, XML_Parser c, const Doc *d) {
  Kids *k = (Kids *)r.hookArg; Runner *n = new Runner(r.A, r.C); n->hookArg = k; n->childHook = r.childHook; n->handlers = r.handlers; int depth = r.depth + 1;
  std::string id; { std::lock_guard<std::mutex> g(k->m); size_t me = k->r.size(); for (size_t i = 0; i < k->r.size(); i++) if (k->r[i].get() == &r) id = k->path[i]; id += "/" + std::to_string(r.kids++); (void)me; k->r.emplace_back(n); k->path.push_back(id); if (k->r.size() > 60) { r.T.overflow = true; } }
  auto work = [n, c, d, depth, k] { long b = g_alloc.live; run_child(*n, c, d, depth); if (std::this_thread::get_id() != k->main) k->live += g_alloc.live - b; };
  if (k->mode == 0) work(); else { std::lock_guard<std::mutex> g(k->m); if (k->mode == 1 && k->t.size() < 30) k->t.emplace_back(work); else k->later.push_back(work); }
  return 1;
}
static bool family(const Case &c, int mode, std::string &out, long &leak) {
  Kids k; k.mode = mode; Runner r(API_SUT, c); r.childHook = take_child; r.hookArg = &k; long b = g_alloc.live; Trace t = std::move(r.run()); bool over = t.overflow;
  for (size_t i = 0;; i++) { std::thread x; { std::lock_guard<std::mutex> g(k.m); if (i >= k.t.size()) break; x = std::move(k.t[i]); } x.join(); }
  for (;;) { std::function<void()> f; { std::lock_guard<std::mutex> g(k.m); if (k.later.empty()) break; f = k.later.front(); k.later.erase(k.later.begin()); } f(); }
  leak = g_alloc.live - b + k.live; std::map<std::string, std::string> m; for (auto &i : t.inv) out += i + "\n"; out += t.render(c.flags);
  for (size_t i = 0; i < k.r.size(); i++) { over |= k.r[i]->T.overflow; std::string &s = m[k.path[i]]; for (auto &v : k.r[i]->T.inv) s += v + "\n"; s += k.r[i]->T.render(c.flags); }
  for (auto &x : m) out += "parser " + x.first + "\n" + x.second;
  g_stats->trace(t, c.flags); g_stats->extra[3 + mode] += (long)k.r.size(); return !over;
}
static std::string chk_family(const Case &c) {
  static const char *const W[] = {"in the handler", "on other threads", "after the parent"}; std::string o[3]; long leak[3];
  for (int m = 0; m < 3; m++) { if (!family(c, m, o[m], leak[m])) { g_stats->skipped++; return ""; } if (leak[m]) return std::string("library blocks still allocated, entities parsed ") + W[m] + ": " + std::to_string(leak[m]) + "\n"; if (m && o[m] != o[0]) return std::string("entities parsed ") + W[m] + " report something else\n" + first_diff(o[0], o[m], W[0], W[m]); }
  g_stats->evals++; return "";
}
__attribute__((constructor)) static void reg() {
  add("inter", [](Rng &r, uint64_t, Case &c) { gen_conc(r, c, 4); }, chk_inter);
  add("threads", [](Rng &r, uint64_t, Case &c) { gen_conc(r, c, 6); }, chk_threads);
  add("family", [](Rng &r, uint64_t, Case &c) {
    common_cfg(r, c); if (r.chance(30)) c.handlers |= HB(H_DEFAULT); c.handlers |= HB(H_EXT); GenOpt o; o.ns = c.ns; o.elems = r.range(2, 9); o.attlist = 50; o.xmldecl = 50;
    if (r.chance(40)) { o.dtd = 100; o.ext = 60; o.ents = 70; gen_case(r, o, c); random_chunks(r, c); return; }
    o.dtd = 0; int n = r.range(1, 4); static const char *const D[] = {"<!ATTLIST q a CDATA 'dflt' p:b ID #IMPLIED>", "<!ATTLIST r c NMTOKENS ' x  y '>", "<!ENTITY i '<q>&j;</q>'>", "<!ENTITY j 'text'>", "<!ATTLIST q xmlns:p CDATA 'urn:p' xmlns CDATA 'urn:d'>", "<!ELEMENT q (r|q*)>", "<!NOTATION nn SYSTEM 'nn'>", "<!ATTLIST p:q z (a|b) 'a'>"};
    auto refs = [&] { str s; for (int k = r.range(0, 3); k--;) s += r.chance(60) ? "&e" + std::to_string(r.range(1, n)) + ";" : r.pick({"<q/>", "<q p:b='1' a='2'/>", "&i;", "&j;", "<p:q xmlns:p='urn:p'/>", "text", "<r>", "</r>", "&nosuch;", "<![CDATA[x]]>"}); return s; };
    Doc m; m.data = "<!DOCTYPE r ["; for (int k = r.range(1, 8); k--;) m.data += r.pick(D); for (int k = 1; k <= n; k++) m.data += "<!ENTITY e" + std::to_string(k) + " SYSTEM 'e" + std::to_string(k) + "'>"; m.data += "]><r xmlns:p='urn:p'>" + refs() + refs() + "<q>" + refs() + "</q>&e1;" + refs() + "</r>"; c.docs.push_back(m);
    for (int k = 1; k <= n; k++) { Case t; gen_case(r, o, t); Doc d; d.sysid = "e" + std::to_string(k); d.data = r.chance(50) ? refs() + refs() : t.docs[0].data.compare(0, 5, "<?xml") ? t.docs[0].data : refs(); if (r.chance(20)) { str x; if (transcode(d.data, r.pick({"UTF-16LE", "UTF-16BE"}), x, true)) d.data = x; } c.docs.push_back(d); }
    random_chunks(r, c); }, chk_family);
  add("migrate", [](Rng &r, uint64_t, Case &c) { gen_one(r.next() >> 33, c); c.flags |= F_MIGRATE; }, chk_migrate);
}
