// Allocation failures: the p[0]-th allocation of the library fails (p[1]: also all later ones).  The parser reports XML_ERROR_NO_MEMORY
// (or the creating call returns NULL), what was reported before is a prefix of what is reported without the failure, and everything is released.
#include "oracles.h"
#include <cstring>
#include <algorithm>
typedef std::string str;
static str chk(const Case &c) {
  Trace a = run_case(API_SUT, c); if (a.overflow || !a.inv.empty()) { g_stats->skipped++; return ""; }
  static long made = -1; if (made < 0) { long b = g_alloc.count; XML_Parser p = make_parser(API_SUT, c, ""); made = g_alloc.count - b; InLib g; API_SUT.XML_ParserFree_(p); }
  long lo = c.p[0] % 20 ? made : 0, at = a.allocs > lo ? lo + c.p[0] / 20 % (a.allocs - lo) : 0;
  g_alloc.failed = 0; g_alloc.fail_persist = c.p[1]; g_alloc.fail_at = at; Trace b = run_case(API_SUT, c); long failed = g_alloc.failed; g_alloc.fail_at = -1; g_alloc.fail_persist = 0; g_alloc.failed = 0;
  g_stats->evals++; g_stats->trace(b, c.flags); g_stats->extra[0] += failed > 0; if (!failed) return "";
  str head = "allocation " + std::to_string(at) + (c.p[1] ? " and all later ones fail" : " fails") + "\n";
  if (!b.inv.empty()) return head + invs(b);
  if (b.leak) return head + "library blocks still allocated after everything was freed: " + std::to_string(b.leak) + "\n";
  if (!b.created) { g_stats->extra[1]++; return ""; }
  for (auto &v : b.ev) if ((v.k == 'B' && v.text.compare(0, 4, "XML_") == 0) || (v.k == 'A' && (v.text == "setbase=0" || v.text == "setenc=0"))) { g_stats->extra[4]++; return ""; }   // (the failing call said so; the harness goes on regardless)
  size_t at_ev = b.ev.size(); for (size_t i = 0; i < b.ev.size() && at_ev == b.ev.size(); i++) { const Event &v = b.ev[i]; if ((v.k == '!' && v.text.compare(0, 5, "err=1") == 0 && v.text.size() == 5) || (v.k == 'z') || (v.k == 'B' && v.text.find("err=1") != str::npos)) at_ev = i; }
  if (at_ev == b.ev.size()) { g_stats->extra[2]++; str d = first_diff(a.render(c.flags), b.render(c.flags), "without failure", "with it"); return d.empty() ? "" : head + "the failure is not reported but the events differ\n" + d; }
  if (b.status == 1) return head + "the failure is reported but the document accepted\n" + b.render(c.flags);
  for (size_t i = 0; i < at_ev; i++) {
    const Event &v = b.ev[i]; if (i >= a.ev.size()) return head + "more events than without the failure\n" + b.render(c.flags);
    if (v.k == '}') break;   // (the bindings of the element that could not be started)
    const Event &w = a.ev[i]; if (v.k == w.k && v.text == w.text && v.depth == w.depth) continue;
    bool last = true; for (size_t j = i + 1; j < at_ev; j++) if (!strchr("}Acp", b.ev[j].k)) last = false;
    if (last && v.k == w.k && (v.k == 'T' || v.k == 'D') && w.text.compare(0, v.text.size(), v.text) == 0) break;
    if (last && v.k == 'N') { size_t q = v.text.find(" val="), m = v.text.find(" base="); bool found = false; for (size_t j = i; j < a.ev.size() && q != str::npos && m != str::npos; j++) if (a.ev[j].k == 'N' && a.ev[j].text.compare(0, m, v.text, 0, m) == 0) found = true; if (found) break; }   // (as much of the value as was stored)
    return head + "the events before the failure differ\n" + first_diff(a.render(c.flags), b.render(c.flags), "without failure", "with it");
  }
  g_stats->extra[3]++;
  return "";
}
// the same with hostile documents and an application that may ignore that an entity's parser failed: only memory and the invariants count
static str chk_mem(const Case &c) {
  Trace a = run_case(API_SUT, c); if (a.overflow) { g_stats->skipped++; return ""; }
  long at = a.allocs ? c.p[0] % a.allocs : 0;
  g_alloc.failed = 0; g_alloc.fail_persist = c.p[1]; g_alloc.fail_at = at; Trace b = run_case(API_SUT, c); long failed = g_alloc.failed; g_alloc.fail_at = -1; g_alloc.fail_persist = 0; g_alloc.failed = 0;
  g_stats->evals++; g_stats->trace(b, c.flags); g_stats->extra[0] += failed > 0; if (!failed) return "";
  str head = "allocation " + std::to_string(at) + (c.p[1] ? " and all later ones fail" : " fails") + "\n";
  if (!b.inv.empty()) return head + invs(b);
  if (b.leak) return head + "library blocks still allocated after everything was freed: " + std::to_string(b.leak) + "\n";
  return "";
}
__attribute__((constructor)) static void reg() {
  add("oom-mem", [](Rng &r, uint64_t i, Case &c) { for (auto &s : SUBS) if (!strcmp(s.name, "mem")) s.gen(r, i, c); c.flags &= ~(F_POS | F_INCTX); c.flags |= F_NOCOUNT; c.p = {(long)r.below(1000000), (long)r.chance(30)}; }, chk_mem);
  add("oom", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); if (r.chance(40)) c.handlers |= HB(H_DEFAULT); c.handlers |= HB(H_EXT); c.flags = F_NOCOUNT; GenOpt o; o.ns = c.ns; o.invalid = r.chance(10) ? 60 : 0; o.longtok = 10; o.dtd = 70; o.ents = 40; o.elems = r.range(1, 12); gen_case(r, o, c); random_chunks(r, c);
    if (r.chance(25)) for (auto &d : c.docs) { str t; if (transcode(d.data, r.pick({"UTF-16LE", "UTF-16BE", "UTF-8"}), t, true)) d.data = t; }
    c.p = {(long)r.below(1000000), (long)r.chance(30)}; }, chk);
  add("oom-scale", [](Rng &r, uint64_t i, Case &c) {   // larger constructs: every table and buffer grows
    static const char *const N[] = {"scale-elem", "scale-ns", "scale-attr", "scale-dtd", "scale-ent", "scale-def", "enc", "unkenc", "setunset", "suspend", "content", "dtd", "ents"}; str n = r.pick(N);
    for (auto &s : SUBS) if (n == s.name) s.gen(r, i, c); c.flags &= ~(F_POS | F_RAW | F_INCTX | F_ZEROOK); c.flags |= F_NOCOUNT; c.p = {(long)r.below(1000000), (long)r.chance(30)}; if (c.docs.empty()) { Doc d; d.data = "<a/>"; c.docs.push_back(d); } }, chk);
}
