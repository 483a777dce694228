// Differential profiles: the same workload on rexpat and on the reference implementation.
#include "oracles.h"
#include <cstring>
static void handlers_rand(Rng &r, Case &c) {
  int k = r.below(10);
  if (k < 2) c.handlers = H_ALL_NODEF;
  else if (k < 5) { c.handlers = 0; for (int i = 0; i < H_N; i++) if (r.chance(50)) c.handlers |= HB(i); }
  else if (k < 7) { c.handlers = H_ALL_NODEF; for (int i = r.range(1, 4); i--;) c.handlers &= ~HB(r.below(H_N)); if (r.chance(60)) c.handlers |= HB(H_DEFAULT); if (r.chance(50)) c.handlers |= HB(H_DEFEXPAND); }
  else if (k < 9) { c.handlers = HB(H_EXT) | HB(H_UNKENC); for (int i = r.range(0, 3); i--;) c.handlers |= HB(r.below(H_N)); if (r.chance(70)) c.handlers |= HB(H_DEFAULT); }
  else c.handlers = H_ALL;
}
static void acts_rand(Rng &r, Case &c, std::initializer_list<int> kinds, int n, int span) {
  std::vector<int> k(kinds);
  while (n-- > 0) { Act a; a.ev = r.below(span); a.kind = k[r.below((uint32_t)k.size())]; a.arg = a.kind == A_PEPARSING ? r.below(4) - 1 : a.kind == A_SETBASE ? r.below(4) : r.below(H_N);
    // The reference calls a start-doctype handler unchecked at the end of the declaration, and gives the end event of an
    // empty element the extent of the whole tag when the start handler was removed meanwhile: not judged by comparison.
    // Removing the attlistDecl handler in the middle of an enumerated type leaves the type in front of the next string there.
    if (a.kind == A_UNSET && (a.arg == H_SDOCTYPE || a.arg == H_START || a.arg == H_ATTDECL)) a.arg = H_END;
    c.acts.push_back(a); }
}
static bool encode_case(Rng &r, Case &c) { // re-encode every document at random, keep it when representable
  static const char *const E[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "US-ASCII", "x-sb1", "x-sb2", "x-mb2", "x-mb3", "x-mb4", "x-sb4"};
  for (auto &d : c.docs) {
    if (r.chance(25)) continue;
    std::string e = r.pick(E), o; bool bom = e[3] == '-' && e != "x-s" && r.chance(e == "UTF-8" ? 40 : 80);
    if (!transcode(d.data, e, o, bom)) continue;
    if (o.size() > 2 && d.data.compare(0, 5, "<?xml") == 0 && e != "UTF-8") { // name it in the declaration
      size_t q = d.data.find("?>"), p = d.data.find("encoding"); std::string nm = e.compare(0, 6, "UTF-16") == 0 && r.chance(70) ? "UTF-16" : e;
      if (q != std::string::npos && (p == std::string::npos || p > q) && r.chance(80)) { size_t v = d.data.find("version"); (void)v; size_t sa = d.data.find("standalone"); size_t at = sa != std::string::npos && sa < q ? sa : q; std::string t = d.data; t.insert(at, " encoding='" + nm + "' "); if (!transcode(t, e, o, bom)) continue; }
    }
    if (r.chance(40)) d.enc = r.chance(30) && e.compare(0, 6, "UTF-16") == 0 ? "UTF-16" : e;
    if (r.chance(4)) d.enc = r.pick({"utf-8", "Utf-16", "iso-8859-1", "us-ascii", "x-zero", "x-bad1", "bogus", "UTF-16le"});
    d.data = o;
  }
  return true;
}
// Suspended runs: where the parser stands while it is suspended, and the position of what follows in an internal
// entity that was suspended (its reference begins or has just ended there), are unspecified.
static std::string check_susp(const Case &c) {
  Trace r = run_case(API_REF, c); if (r.overflow) { g_stats->skipped++; return ""; }
  Trace s = run_case(API_SUT, c);
  auto drop = [](Trace &t) { std::vector<Event> v; for (auto &e : t.ev) { if (e.k == 'R') continue; if (!v.empty() && (e.k == 'T' || e.k == 'D') && v.back().k == e.k && v.back().depth == e.depth && v.back().doc == e.doc) v.back().text += e.text; else v.push_back(e); } t.ev = v; };
  // The reference loses track of a CDATA section that is suspended inside an internal entity: rexpat is compared with its
  // own uninterrupted run instead (susp-meta).
  long susp = s.counts['R']; drop(r); drop(s);
  // ... the reference may stand at the start of the entity reference or just behind it; so may rexpat
  auto at_ref = [](const Event &a, long x, long y) { if (!a.doc || x < 0 || (size_t)x >= a.doc->size() || !strchr("&%", (*a.doc)[x])) return false; size_t e = a.doc->find(';', x); return e != std::string::npos && y == (long)e + 1; };
  auto pidx = [](const Event &e) { return atol(e.text.substr(e.text.rfind(':') + 1).c_str()); };
  if (susp && r.ev.size() == s.ev.size()) for (size_t i = 0; i < r.ev.size(); i++) {
    Event &a = r.ev[i], &b = s.ev[i];
    if (at_ref(a, a.pos.idx, b.pos.idx) || at_ref(b, b.pos.idx, a.pos.idx)) b.pos = a.pos;
    if (a.k == 'p' && b.k == 'p' && (at_ref(a, pidx(a), pidx(b)) || at_ref(b, pidx(b), pidx(a)))) b.text = a.text;
  }
  bool differ = first_diff(r.render(c.flags), s.render(c.flags), "", "") != "";
  if (differ) { Case k = c; if (ref_brackets(k)) return check_susp(k); }
  if (differ) { // The reference forgets an abort in the last callback of a piece: it then reports success, or that it has finished.
    bool stop = false; for (auto &e : s.ev) if (e.k == '!' && e.text == "err=35") stop = true;
    if (stop) { Trace r2 = r, s2 = s; for (Trace *t : {&r2, &s2}) while (!t->ev.empty() && strchr("F!.B", t->ev.back().k)) t->ev.pop_back();
      if (first_diff(r2.render(c.flags), s2.render(c.flags), "", "") == "") { g_stats->skipped++; return ""; }
      size_t i = 0; auto one = [&](const Trace &t, size_t n) { Trace o; o.ev.assign(t.ev.begin(), t.ev.begin() + n); return o.render(c.flags); };
      while (i < s.ev.size() && !(s.ev[i].k == '!' && s.ev[i].text == "err=35")) i++;  // ... of an external entity
      if (i < r.ev.size() && strchr("F!.B", r.ev[i].k) && r.ev[i].text != "err=35" && one(r, i) == one(s, i)) { g_stats->skipped++; return ""; } }
  }
  if (differ && susp) for (auto &d : c.docs) if (d.data.find("<!ENTITY") != std::string::npos && d.data.find("CDATA[") != std::string::npos) { g_stats->skipped++; return ""; }
  g_stats->suspensions += susp;
  return judge_diff(c, r, s);
}
__attribute__((constructor)) static void reg() {
  add("diff-gen", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); GenOpt o; o.ns = c.ns; o.bom = r.chance(20) ? 20 : 0; o.invalid = 30; gen_case(r, o, c); random_chunks(r, c); }, check_diff);
  add("diff-valid", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); GenOpt o; o.ns = c.ns; o.bom = r.chance(20) ? 20 : 0; o.invalid = 0; gen_case(r, o, c); random_chunks(r, c); }, check_diff);
  add("diff-soup", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); Doc d; d.data = soup(r, r.range(1, 12), -1); c.docs.push_back(d); }, check_diff);
  // C04
  add("wf-mut", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); GenOpt o; o.ns = c.ns; o.invalid = 100; o.longtok = 1; gen_case(r, o, c); random_chunks(r, c); }, check_diff);
  // C05
  add("content", [](Rng &r, uint64_t, Case &c) {
    c.flags = 0; c.ns = r.chance(20); GenOpt o; o.ns = c.ns; o.dtd = 15; o.comments = 35; o.pis = 30; o.cdata = 35; o.elems = 20; o.nl = 50; o.longtok = 8; o.multibyte = 35; gen_case(r, o, c); random_chunks(r, c); }, check_diff);
  // C08
  add("names", [](Rng &r, uint64_t, Case &c) {
    common_cfg(r, c); c.flags = F_CTX; if (!c.ns) c.ns = 1; GenOpt o; o.ns = true; o.elems = 20; o.attrs = 5; o.comments = o.pis = o.cdata = 3; o.dtd = 30; o.attlist = 80; o.elemdecl = 5; o.undeclared = 1; o.dupattr = 6; gen_case(r, o, c); random_chunks(r, c); }, check_diff);
  // C09
  add("attrs", [](Rng &r, uint64_t, Case &c) {
    common_cfg(r, c); c.flags = 0; GenOpt o; o.ns = c.ns; o.elems = 14; o.attrs = 8; o.comments = o.pis = o.cdata = 2; o.dtd = 85; o.attlist = 140; o.elemdecl = 2; o.notation = 3; o.undeclared = 1; o.dupattr = 5; gen_case(r, o, c); random_chunks(r, c); }, check_diff);
  // C10
  add("dtd", [](Rng &r, uint64_t, Case &c) {
    common_cfg(r, c); c.flags = F_CTX; GenOpt o; o.ns = c.ns; o.elems = 3; o.dtd = 100; o.subset = 95; o.ext = 45; o.attlist = 70; o.elemdecl = 90; o.notation = 40; o.pe = 40; o.undeclared = 2; gen_case(r, o, c); random_chunks(r, c); }, check_diff);
  // C11
  add("ents", [](Rng &r, uint64_t, Case &c) {
    common_cfg(r, c); c.flags = F_CTX; GenOpt o; o.ns = c.ns; o.elems = 10; o.dtd = 100; o.subset = 98; o.ext = 50; o.attlist = 20; o.elemdecl = 3; o.notation = 10; o.pe = 60; o.ents = 70; o.bom = 8; o.undeclared = 6; o.recursive = 6; o.xmldecl = 60; o.standalone = 60; if (r.chance(15)) { c.foreign = 1; c.pe = 2; if (r.chance(40)) o.ext = 0; if (r.chance(20)) o.dtd = 0; } gen_case(r, o, c); random_chunks(r, c);
    if (r.chance(c.foreign ? 30 : 10)) c.flags |= F_NOTSA0; if (r.chance(25)) { c.handlers &= ~HB(H_EXT); } if (r.chance(15)) c.handlers &= ~HB(H_SKIPPED); if (r.chance(15)) c.handlers |= HB(H_DEFAULT) | (r.chance(50) ? HB(H_DEFEXPAND) : 0); }, check_diff);
  // C12
  add("pos", [](Rng &r, uint64_t, Case &c) {
    common_cfg(r, c); c.flags = F_POS | F_CTX | F_INCTX; GenOpt o; o.ns = c.ns; o.nl = 60; o.ws = 70; o.invalid = 30; gen_case(r, o, c); random_chunks(r, c); if (r.chance(30)) encode_case(r, c); if (r.chance(30)) acts_rand(r, c, {A_POS}, 3, 40); }, check_diff);
  add("pos-some", [](Rng &r, uint64_t, Case &c) { // asked for at some events only, with the parse suspended here and there
    common_cfg(r, c); c.flags = F_POS | F_POSSOME; c.base = ""; if (r.chance(40)) handlers_rand(r, c); GenOpt o; o.ns = c.ns; o.nl = 60; o.ws = 60; o.invalid = 15; if (r.chance(30)) o.dtd = 0; if (r.chance(50)) o.ents = 3; gen_case(r, o, c); random_chunks(r, c); if (r.chance(80)) acts_rand(r, c, {A_STOP_RES, A_STOP_RES, A_STOP_RES, A_POS, A_SETBASE}, r.range(1, 8), 40); }, check_susp);
  // C06
  add("enc", [](Rng &r, uint64_t, Case &c) {
    common_cfg(r, c); c.flags = F_POS; GenOpt o; o.ns = c.ns; o.multibyte = r.chance(50) ? 0 : r.range(10, 60); o.xmldecl = 70; o.longtok = 3; gen_case(r, o, c); encode_case(r, c); random_chunks(r, c); if (r.chance(30)) c.flags |= F_CTORENC; if (r.chance(20)) mutate(r, c.docs[r.below((uint32_t)c.docs.size())].data, 1); }, check_diff);
  add("unkenc", [](Rng &r, uint64_t, Case &c) { // encodings described by the application, legal or not, under bytes of every value
    common_cfg(r, c); c.flags = r.chance(60) ? F_POS : 0; GenOpt o; o.ns = c.ns; o.multibyte = 0; o.xmldecl = 0; o.elems = 4; o.dtd = 40; gen_case(r, o, c);
    std::string e = r.chance(90) ? "x-r" + std::to_string(r.below(200000)) : r.pick({"x-bad1", "x-bad2", "x-bad3", "x-bad4", "x-bad5", "x-bad6", "x-bad7", "x-zero", "x-none"});
    for (auto &d : c.docs) { int n = r.below(6); while (n-- > 0) { std::string b; int k = r.range(1, 4); bool lead = true; while (k-- > 0) { b += (char)(lead ? r.range(128, 255) : r.below(256)); lead = r.chance(30); } size_t L = d.data.size(), at = r.below((uint32_t)L + 1); for (int t = 0; t < 8 && at < L && at && !isalnum((unsigned char)d.data[at - 1]); t++) at = r.below((uint32_t)L + 1); d.data.insert(std::min(at, L), b); }
      if (r.chance(60)) { bool t = &d != &c.docs[0]; if (d.data.compare(0, 5, "<?xml") != 0) d.data = (t && r.chance(50) ? "<?xml encoding='" : "<?xml version='1.0' encoding='") + e + "'?>" + d.data; else d.enc = e; } else d.enc = e; }
    random_chunks(r, c); if (r.chance(20)) c.flags |= F_CTORENC; }, check_diff);
  // C21
  add("handlers", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); handlers_rand(r, c); if (r.chance(30)) c.flags |= F_PARSERARG; if (r.chance(30)) c.flags |= F_EXTARG; GenOpt o; o.ns = c.ns; gen_case(r, o, c); random_chunks(r, c); }, check_diff);
  add("setunset", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); handlers_rand(r, c); c.handlers |= HB(H_START); c.flags &= ~F_POS; acts_rand(r, c, {A_SET, A_UNSET, A_SET, A_UNSET, A_DEFCUR}, r.range(1, 6), 30); GenOpt o; o.ns = c.ns; gen_case(r, o, c); random_chunks(r, c); }, check_diff);
  // C13
  add("suspend", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); if (r.chance(30)) handlers_rand(r, c); acts_rand(r, c, {A_STOP_RES, A_STOP_RES, A_STOP_RES, A_STOP_FIN, A_STOP_TWICE, A_STATUS}, r.range(1, 5), 40); GenOpt o; o.ns = c.ns; gen_case(r, o, c); random_chunks(r, c); }, check_susp);
  // C14
  add("actions", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); if (r.chance(30)) handlers_rand(r, c); acts_rand(r, c, {A_STOP_RES, A_STOP_FIN, A_DEFCUR, A_UNSET, A_SET, A_POS, A_STOP_TWICE, A_SETENC, A_SETBASE, A_PEPARSING, A_FOREIGN, A_STATUS}, r.range(1, 8), 40); c.flags |= F_FEEDLOG; GenOpt o; o.ns = c.ns; gen_case(r, o, c); random_chunks(r, c); }, check_susp);
}
