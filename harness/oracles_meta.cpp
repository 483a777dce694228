// Metamorphic monitors: two runs of rexpat whose observable behaviour must agree.
#include "oracles.h"
#include <cstring>
#include <algorithm>
// --- helpers
static std::vector<Event> coalesce(const std::vector<Event> &in, const char *drop, uint32_t keepkinds = 0) {
  std::vector<Event> v;
  for (auto &e : in) {
    if (strchr(drop, e.k)) continue;
    if (!v.empty() && (e.k == 'T' || e.k == 'D') && v.back().k == e.k && v.back().depth == e.depth && v.back().doc == e.doc) v.back().text += e.text; else v.push_back(e);
  }
  return v;
}
static std::string finish(const Case &c, const Trace &a, const Trace &b, uint32_t flags, const char *na, const char *nb) {
  g_stats->evals++; g_stats->trace(b, c.flags);
  std::string d = first_diff(a.render(flags), b.render(flags), na, nb);
  if (!d.empty()) return "event traces differ\n" + d;
  if (!a.inv.empty()) return invs(a);
  if (!b.inv.empty()) return invs(b);
  if (a.leak || b.leak) return "  library blocks still allocated after XML_ParserFree: " + std::to_string(a.leak) + ", " + std::to_string(b.leak) + "\n";
  return "";
}
// UTF-16 without byte order mark that does not start with '<' is guessed from the first two bytes only if they come together
static bool guessed(const Case &c) { for (auto &d : c.docs) if (d.data.size() == 1) return true; else if (d.data.size() > 1 && d.data[1] == 0 && d.data[0] != '<') return true; return false; }
static Case whole(const Case &c) { Case w = c; for (auto &d : w.docs) { d.chunks.clear(); d.mode = 0; } return w; }

// Text directly before the point of an error may or may not have been reported (it is when a piece ends there), and
// junk after the root element is an invalid token or plain junk depending on whether a piece ends inside it.
static void relax_errors(Trace &a, Trace &b) {
  auto &x = a.ev, &y = b.ev; auto td = [](const Event &e) { return e.k == 'T' || e.k == 'D'; };
  for (size_t i = 0; i < x.size() && i < y.size(); i++) {
    if (x[i].k == '!' && td(y[i]) && i + 1 < y.size() && y[i + 1].k == '!') y.erase(y.begin() + i);
    else if (y[i].k == '!' && td(x[i]) && i + 1 < x.size() && x[i + 1].k == '!') x.erase(x.begin() + i);
    else if (td(x[i]) && x[i].k == y[i].k && i + 1 < x.size() && i + 1 < y.size() && x[i + 1].k == '!' && y[i + 1].k == '!') { size_t n = std::min(x[i].text.size(), y[i].text.size()); x[i].text.resize(n); y[i].text.resize(n); }
    if (x[i].k == '.' && y[i].k == '.') y[i].pos = x[i].pos;
    if (x[i].k == '!' && y[i].k == '!' && x[i].depth && x[i].pos.idx == y[i].pos.idx) y[i].pos = x[i].pos;
    if (x[i].k == '!' && y[i].k == '!' && x[i].depth == 0 && x[i].text != y[i].text && (x[i].text == "err=9" || y[i].text == "err=9") && strchr("456", (x[i].text == "err=9" ? y[i].text : x[i].text)[4]) && (x[i].text + y[i].text).size() == 10) { y[i].text = x[i].text; y[i].pos = x[i].pos; }
  }
}
// --- C03: the way the document is cut into pieces is not observable
static std::string chk_chunk(const Case &c) {
  if (guessed(c)) { g_stats->skipped++; return ""; }
  Trace a = run_case(API_SUT, whole(c)); if (a.overflow) { g_stats->skipped++; return ""; }
  Trace b = run_case(API_SUT, c); relax_errors(a, b);
  return finish(c, a, b, c.flags, "in one piece", "in several pieces");
}
// every two-piece split of every document, and all one-byte pieces
static std::string chk_splits(const Case &c) {
  if (guessed(c)) { g_stats->skipped++; return ""; }
  Case w = whole(c); Trace a = run_case(API_SUT, w); if (a.overflow) { g_stats->skipped++; return ""; }
  std::string ra = a.render(c.flags);
  for (size_t d = 0; d < c.docs.size(); d++) {
    size_t L = c.docs[d].data.size(); if (L > 600) continue;
    for (size_t i = 0; i <= L; i++) for (int m = 0; m < 2; m++) {
      Case k = w; k.docs[d].chunks = {(int)i}; k.docs[d].mode = m; Trace b = run_case(API_SUT, k); g_stats->steps++; Trace a2 = a; if (b.render(c.flags) != ra) relax_errors(a2, b); else continue;
      std::string df = first_diff(a2.render(c.flags), b.render(c.flags), "in one piece", "split in two");
      if (!df.empty()) { std::string r = finish(k, a2, b, c.flags, "in one piece", "split in two"); return "document " + std::to_string(d) + " split at byte " + std::to_string(i) + (m ? " (ParseBuffer)" : " (Parse)") + "\n" + r; }
      if (!b.inv.empty()) return invs(b);
    }
  }
  Case k = w; for (auto &d : k.docs) d.chunks.assign(d.data.size(), 1);
  Trace b = run_case(API_SUT, k); relax_errors(a, b);
  return finish(c, a, b, c.flags, "in one piece", "byte by byte");
}
// --- C13: suspending and resuming is transparent
static bool ref_here(const Event &a, long x) { return a.doc && x >= 0 && (size_t)x < a.doc->size() && strchr("&%", (*a.doc)[x]); }
static std::string chk_suspmeta(const Case &c) {
  Case w = c; w.acts.clear(); for (auto &a : c.acts) if (a.kind != A_STOP_RES && a.kind != A_STOP_TWICE && a.kind != A_STATUS) w.acts.push_back(a);
  Trace a = run_case(API_SUT, w), b = run_case(API_SUT, c);
  if (a.overflow || b.overflow) { g_stats->skipped++; return ""; }
  long n = b.counts['R']; g_stats->suspensions += n;
  for (auto &e : b.ev) if (e.k == 'A' && e.text.compare(0, 7, "stop11=") == 0 && e.text != "stop11=1033" && e.text != "stop11=33" && e.text != "stop11=37" && e.text != "stop11=36") return "stopping twice: " + e.text + "\n";
  a.ev = coalesce(a.ev, "RAF"); b.ev = coalesce(b.ev, "RAF");
  uint32_t fl = c.flags; for (auto *t : {&a, &b}) for (auto &e : t->ev) if (e.k == '.') e.pos = Pos();
  if (n && (fl & F_POS) && a.ev.size() == b.ev.size()) for (size_t i = 0; i < a.ev.size(); i++) { // a resumed internal entity: start of the reference or just behind it
    Event &x = a.ev[i], &y = b.ev[i]; size_t e;
    if (ref_here(x, x.pos.idx) && (e = x.doc->find(';', x.pos.idx)) != std::string::npos && y.pos.idx == (long)e + 1) y.pos = x.pos;
    if (x.pos.idx == y.pos.idx && (x.k == '!' || ref_here(x, x.pos.idx))) y.pos = x.pos;
  }
  return finish(c, a, b, fl, "uninterrupted", "suspended and resumed");
}
// --- C13: an abort ends the parse: what was reported is a prefix, nothing but closing events follows, the error is ABORTED
static std::string chk_abort(const Case &c) {
  Case w = c; w.acts.clear(); Trace a = run_case(API_SUT, w), b = run_case(API_SUT, c);
  if (a.overflow) { g_stats->skipped++; return ""; }
  a.ev = coalesce(a.ev, "RF"); auto full = b.ev; b.ev = coalesce(b.ev, "RFA");
  g_stats->evals++; g_stats->trace(b, c.flags);
  size_t i = 0; bool hit = false; std::string after, okset; char last = 0; int ad = -1; bool ign = false; size_t lastlen = 0; // (a long token is passed on in several pieces)
  // closing events of the construct in whose callback the abort happened may follow; nothing else
  for (auto &e : full) {
    if (e.k == 'A') { hit = true; ad = e.depth; okset = last == '{' ? "{SE}" : last == 'S' ? "E}" : last == 'E' || last == '}' ? "}" : last == 'Y' ? "Zsy" : last == 's' ? (c.foreign ? "yDS{E}" : "yD") : last == 'X' ? "u" : last == 'Z' ? "syS{E}N" : last == 'D' && (ign || lastlen >= 1000) ? "D" : last == '[' ? "TD]" : ""; continue; }
    if (hit && !strchr(".!", e.k) && e.depth <= ad && !(e.depth < ad && e.k == 'N') && !(e.depth == ad && okset.find(e.k) != std::string::npos)) after += std::string(1, e.k) + " " + e.text + "; ";
    last = e.k; lastlen = e.text.size(); ign = e.text.find("<![") != std::string::npos; }
  if (!hit) return finish(c, a, b, c.flags, "without abort", "abort never reached");
  std::vector<Event> v; for (auto &e : b.ev) if (e.k != 'A' && e.k != '!' && e.k != '.') v.push_back(e);
  std::vector<Event> u; for (auto &e : a.ev) if (e.k != '!' && e.k != '.') u.push_back(e);
  for (; i < v.size(); i++) {
    if (i >= u.size()) return "more events than in the run without the abort: " + std::string(1, v[i].k) + " " + esc(v[i].text) + "\n";
    if (v[i].k != u[i].k || v[i].depth != u[i].depth || (v[i].text != u[i].text && v[i].k != 'N' && !((v[i].k == 'T' || v[i].k == 'D') && u[i].text.compare(0, v[i].text.size(), v[i].text) == 0)))
      return "event " + std::to_string(i) + " differs: " + v[i].k + " " + esc(v[i].text) + " instead of " + u[i].k + " " + esc(u[i].text) + "\n";
  }
  if (!after.empty()) return "callbacks after the abort: " + esc(after) + "\n";
  bool atroot = false, inchild = false, inz = false; for (size_t j = 0; j < full.size(); j++) if (full[j].k == 'A') { (full[j].depth ? inchild : atroot) = true; if (j && full[j - 1].k == 'Z') inz = true; }
  if (inz && (b.err == 21 || b.err == 22)) b.err = 35;       // the handler itself reported failure as well
  if (atroot && b.err != 35 && b.err == a.err && a.err && v.size() == u.size()) b.err = 35;   // aborted in the very last callback before an error
  if (atroot && b.err != 35) return "aborted parse ended with error " + std::to_string(b.err) + "\n";
  if (inchild) { bool ok = false; for (auto &e : full) if (e.k == '!' && e.depth && e.text == "err=35") ok = true; for (size_t j = 0; j + 1 < full.size(); j++) if (full[j].k == 'Z' && full[j + 1].k == 'A') for (size_t m = j + 2; m < full.size(); m++) if (full[m].k == '!' && full[m].depth == full[j].depth && (full[m].text == "err=21" || full[m].text == "err=22")) ok = true; // the handler failed as well
    for (size_t q = 0; q < full.size(); q++) if (full[q].k == 'A') for (size_t j = q + 1; j < full.size() && (strchr("!{}EySsuF", full[j].k)); j++) if (full[j].k == '!') for (auto &e : a.ev) if (e.k == '!' && e.depth == full[j].depth && e.text == full[j].text) ok = true; // an error in the very declaration
    if (!ok) return "aborted parse of an external entity did not report the abort\n"; }
  if (!b.inv.empty()) return invs(b);
  if (b.leak) return "  library blocks still allocated\n";
  return "";
}
// --- C06: the encoding of the document is not observable
// p[0]: index into ENCS for document 0 etc.
static const char *const ENCS[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "US-ASCII", "x-sb1", "x-sb2", "x-mb2", "x-mb3", "x-mb4"};
static std::string chk_enc(const Case &c) {
  for (auto &d : c.docs) if (d.data.size() == 1 || (d.data.size() > 1 && (!d.data[0] || !d.data[1] || ((d.data[0] & 0x80) && d.data.compare(0, 3, "\xEF\xBB\xBF"))))) { g_stats->skipped++; return ""; } // too short to tell the encoding
  Case w = c; for (auto &d : w.docs) d.enc = "UTF-8";
  Case k = c; size_t n = 0;
  for (size_t i = 0; i < k.docs.size(); i++) {
    long x = i < c.p.size() ? c.p[i] : 0; std::string e = ENCS[x % 10], o; bool bom = (x / 10) & 1, proto = (x / 20) & 1; 
    if (e.compare(0, 6, "UTF-16") && e != "UTF-8") { bom = false; proto = true; }
    if (e == "UTF-8") proto = proto || !bom;
    else if (e.compare(0, 6, "UTF-16") == 0 && !proto) bom = true;
    if (!transcode(c.docs[i].data, e, o, bom)) { k.docs[i].enc = "UTF-8"; continue; }
    if (bom) w.docs[i].data.insert(0, "\xEF\xBB\xBF"); // a byte order mark counts as a column of the first line
    if (!proto && (c.docs[i].data.find("encoding") != std::string::npos || c.docs[i].data.size() < 2)) proto = true;
    k.docs[i].data = o; k.docs[i].enc = proto ? (bom && e.compare(0, 6, "UTF-16") == 0 ? "UTF-16" : e) : ""; if (e != "UTF-8") n++;
  }
  for (auto &d : c.docs) for (size_t i = 0; (i = d.data.find("<!", i)) != std::string::npos; i++) { size_t j = i + 2; while (j < d.data.size() && !(d.data[j] & 0x80) && !strchr(" \t\r\n<>[", d.data[j])) j++; if (j < d.data.size() && (d.data[j] & 0x80)) { g_stats->skipped++; return ""; } } // a keyword with a non-ASCII letter: which error is not specified
  if (!n && !(c.p.size() && c.p[0])) { g_stats->skipped++; return ""; }
  Trace a = run_case(API_SUT, w), b = run_case(API_SUT, k); if (a.overflow) { g_stats->skipped++; return ""; }
  a.ev = coalesce(a.ev, "u"); b.ev = coalesce(b.ev, "u");
  if (a.err && b.err) for (auto &d : c.docs) if (d.data.find("<\xEF\xBF\xBE") != std::string::npos || d.data.find("<\xEF\xBF\xBF") != std::string::npos) { g_stats->skipped++; return ""; } // markup starting with a noncharacter: invalid token or syntax error
  relax_errors(a, b);
  for (auto *t : {&a, &b}) for (auto &e : t->ev) { e.pos.idx = 0; e.pos.cnt = 0; }
  return finish(c, a, b, c.flags | F_NOCOUNT, "UTF-8", "other encodings");
}
// --- C21: which handlers are set is not observable in the events of the others
static const char KIND[H_N] = {'S', 'E', 'T', 'P', 'C', '[', ']', 'D', 'Y', 'y', 'L', 'a', 'N', 'X', 'U', 'O', '{', '}', 's', 'Z', 'K', 'u', 0};
static std::string chk_project(const Case &c) {
  uint32_t keep = HB(H_NOTSTANDALONE) | HB(H_UNPARSED) | HB(H_EXT) | HB(H_UNKENC) | HB(H_DEFAULT) | HB(H_DEFEXPAND);
  Case w = c; w.handlers = (c.handlers & keep) | (H_ALL_NODEF & ~keep); w.handlers &= ~(HB(H_DEFAULT) | HB(H_DEFEXPAND));
  Case k = c; k.handlers &= ~(HB(H_DEFAULT) | HB(H_DEFEXPAND));
  Trace a = run_case(API_SUT, w), b = run_case(API_SUT, k); if (a.overflow) { g_stats->skipped++; return ""; }
  if ((k.handlers & (HB(H_START) | HB(H_END))) != (HB(H_START) | HB(H_END))) for (auto *t : {&a, &b}) for (auto &e : t->ev) if (e.k == 'E' || e.k == '}') e.pos = Pos();   // extent of an empty element
  std::string drop; for (int i = 0; i < H_N; i++) if (KIND[i] && !(k.handlers & HB(i))) drop += KIND[i];
  a.ev = coalesce(a.ev, drop.c_str()); b.ev = coalesce(b.ev, "");
  return finish(c, a, b, c.flags, "all handlers (projected)", "some handlers");
}
// handlers set and removed between the pieces: the others see the same, these ones a part of it
static std::string chk_late(const Case &c) {
  Case w = c; w.handlers &= ~(HB(H_DEFAULT) | HB(H_DEFEXPAND)); Case k = w; w.flags &= ~F_LATE; std::string drop; for (size_t i = 2; i < c.p.size(); i += 3) { if (KIND[c.p[i] % H_N]) drop += KIND[c.p[i] % H_N]; w.handlers |= HB(c.p[i] % H_N); }
  Trace a = run_case(API_SUT, w), b = run_case(API_SUT, k); if (a.overflow) { g_stats->skipped++; return ""; }
  std::map<char, std::vector<std::string>> sa; for (auto &e : a.ev) if (strchr(drop.c_str(), e.k) && e.k != 'T') sa[e.k].push_back(e.text);
  std::string set; for (size_t i = 2; i < c.p.size(); i += 3) if (c.p[i - 1]) set += KIND[c.p[i] % H_N];   // (set in the middle of a declaration: a partial report)
  std::map<char, size_t> at; for (auto &e : b.ev) if (!strchr(set.c_str(), e.k) && strchr(drop.c_str(), e.k) && e.k != 'T' && !(e.k == 'X' && e.text.empty())) { auto &v = sa[e.k]; size_t &i = at[e.k]; while (i < v.size() && v[i] != e.text) i++; if (i++ == v.size()) return std::string("an event only seen when its handler was not always set: ") + e.k + " " + esc(e.text) + "\n"; }
  for (auto *t : {&a, &b}) for (auto &e : t->ev) if (e.k == 'E' || e.k == '}') e.pos = Pos();
  a.ev = coalesce(a.ev, drop.c_str()); b.ev = coalesce(b.ev, drop.c_str());
  return finish(c, a, b, c.flags, "handlers always set (projected)", "handlers set and removed between the pieces");
}
// --- C16: a reset parser behaves like a new one
static std::string chk_reset(const Case &c) {
  // docs[0..p[0]-1] belong to the first parse (with c.acts), the others to the second
  size_t n1 = (size_t)c.p[0]; Case c1 = c, c2 = c; c1.docs.resize(n1); c2.docs.erase(c2.docs.begin(), c2.docs.begin() + n1); c2.acts.clear();
  if (c.p.size() > 1) c1.handlers = (uint32_t)c.p[1];
  int cut = c.p.size() > 2 ? (int)c.p[2] : 0;
  c1.flags &= ~F_CTORENC; c2.flags &= ~F_CTORENC;
  Trace a = run_case(API_SUT, c2); if (a.overflow) { g_stats->skipped++; return ""; }
  long base = g_alloc.live;
  Runner r1(API_SUT, c1); XML_Parser p = make_parser(API_SUT, c1, "");
  r1.root = p; r1.stack.push_back({p, &r1.C.docs[0]}); r1.configure(p);
  std::string res;
  if (cut == 1) { // leave it in the middle of a document
    const std::string &d = c1.docs[0].data; InLib g; API_SUT.XML_Parse_(p, d.data(), (int)(d.size() / 2), 0);
  } else if (cut == 2) { // leave a buffer half used
    const std::string &d = c1.docs[0].data; InLib g; API_SUT.XML_Parse_(p, d.data(), (int)(d.size() / 3), 0); API_SUT.XML_GetBuffer_(p, 100);
  } else if (cut == 3) { // leave it suspended
    const std::string &d = c1.docs[0].data; InLib g; API_SUT.XML_Parse_(p, d.data(), (int)d.size(), 1);
  } else r1.feed(p, c1.docs[0]);
  r1.stack.clear();
  XML_Bool ok; { InLib g; ok = API_SUT.XML_ParserReset_(p, nullptr); }
  if (!ok) res = "XML_ParserReset failed\n";
  { InLib g;
    XML_ParsingStatus ps; API_SUT.XML_GetParsingStatus_(p, &ps);
    if (ps.parsing != XML_INITIALIZED) res += "parsing status after reset is not INITIALIZED\n";
    if (API_SUT.XML_GetErrorCode_(p) != 0) res += "error code after reset is not NONE\n";
    if (API_SUT.XML_GetBase_(p)) res += "base after reset is not NULL\n";
    if (API_SUT.XML_GetCurrentByteIndex_(p) != -1 || API_SUT.XML_GetCurrentByteCount_(p) != 0 || API_SUT.XML_GetCurrentLineNumber_(p) != 1 || API_SUT.XML_GetCurrentColumnNumber_(p) != 0) res += "position after reset is not the start\n";
    if (API_SUT.XML_GetSpecifiedAttributeCount_(p) != 0) res += "specified attribute count after reset\n";
  }
  Runner r2(API_SUT, c2); r2.root = p; r2.stack.push_back({p, &r2.C.docs[0]}); 
  if (c2.flags & (1 << 20)) { // no handler may survive
    InLib g; std::string all; API_SUT.XML_SetUserData_(p, nullptr);
  } 
  r2.configure(p); r2.feed(p, c2.docs[0]); r2.stack.clear();
  { InLib g; API_SUT.XML_ParserFree_(p); }
  r2.T.leak = g_alloc.live - base;
  if (!res.empty()) return res;
  return finish(c, a, r2.T, c.flags, "new parser", "reset parser");
}
// handlers do not survive a reset (except the unknown-encoding handler)
static std::string chk_resetclear(const Case &c) {
  Runner r1(API_SUT, c); long base = g_alloc.live; XML_Parser p = make_parser(API_SUT, c, "");
  r1.root = p; r1.stack.push_back({p, &r1.C.docs[0]}); r1.configure(p); if (c.p[0]) r1.feed(p, c.docs[0]);
  { InLib g; API_SUT.XML_ParserReset_(p, nullptr); }
  r1.T.ev.clear(); r1.rawEv = 0;
  int st; XML_Error err = XML_ERROR_NONE; { InLib g; st = API_SUT.XML_Parse_(p, c.docs[0].data.data(), (int)c.docs[0].data.size(), 1); err = API_SUT.XML_GetErrorCode_(p); }
  std::string res; long ev = 0; for (auto &e : r1.T.ev) { if (e.k != 'u') res += std::string("callback after reset: ") + e.k + " " + esc(e.text) + "\n"; else ev++; }
  // compare the verdict with a new parser that only has the unknown-encoding handler
  Case w = c; w.handlers = c.handlers & HB(H_UNKENC); w.pe = 0; w.foreign = 0; w.docs[0].enc = ""; w.docs[0].chunks.clear(); w.docs[0].mode = 0;
  Trace a = run_case(API_SUT, w);
  { InLib g; API_SUT.XML_ParserFree_(p); }
  g_stats->evals++; g_stats->trace(a, 0);
  if (!res.empty()) return res;
  if ((a.status == 1) != (st == XML_STATUS_OK) || (st != XML_STATUS_OK && a.err != (int)err)) return "reset parser: status " + std::to_string(st) + " error " + std::to_string(err) + ", new parser: error " + std::to_string(a.err) + "\n";
  if (a.counts['u'] != ev) return "unknown-encoding handler called " + std::to_string(ev) + " times by the reset parser, " + std::to_string(a.counts['u']) + " times by a new one\n";
  if (g_alloc.live != base) return "library blocks leaked\n";
  return "";
}
// --- C15: the default handler sees every byte that no other handler reports, exactly once
static std::string chk_default(const Case &c) {
  // only the default handler: the concatenation is the document (internal entities are not expanded)
  Case w = c; w.handlers = HB(H_DEFAULT) | (c.p.size() && c.p[0] ? HB(H_DEFEXPAND) : 0); w.pe = 0; w.flags = 0; w.foreign = 0;
  Trace a = run_case(API_SUT, w); if (a.overflow || a.status != 1) { g_stats->skipped++; return ""; }
  g_stats->evals++; g_stats->trace(a, 0);
  std::string all; for (auto &e : a.ev) if (e.k == 'D' && e.depth == 0) all += e.text;
  std::string want = c.docs[0].data; if (want.compare(0, 3, "\xEF\xBB\xBF") == 0) want.erase(0, 3);
  if (all != want) return "the data passed to the default handler is not the document\n" + first_diff(want, all, "document", "default handler");
  if (!a.inv.empty()) return invs(a);
  return "";
}
// conservation with other handlers set: every byte of the content is reported exactly once (by its handler or by default)
static std::string chk_tiles(const Case &c) {
  Case w = c; w.flags = F_POS | F_RAW; w.handlers |= HB(H_DEFAULT) | HB(H_DEFEXPAND); w.handlers &= ~(HB(H_SNS) | HB(H_ENS)); w.acts.clear();
  Trace a = run_case(API_SUT, w); if (a.overflow || a.status != 1) { g_stats->skipped++; return ""; }
  g_stats->evals++; g_stats->trace(a, 0);
  long at = 0; const std::string &d = c.docs[0].data; if (d.compare(0, 3, "\xEF\xBB\xBF") == 0) at = 3;
  for (auto &e : a.ev) {
    if (strchr(".!AF", e.k)) continue;
    long b = e.pos.idx, n = e.pos.cnt;
    if (e.k == 'E' && b + n == at && n > 0 && d[at - 1] == '>' && d[b] == '<' && d[b + 1] != '/') continue;   // end event of an empty element: same extent as the start
    if (b == at - 2 && n == 2 && 0) continue;
    if (n == 0) { if (e.k == 'E' && b == at) continue; }
    if (b != at) return "event " + std::string(1, e.k) + " " + esc(e.text) + " starts at byte " + std::to_string(b) + ", the previous one ended at " + std::to_string(at) + "\n";
    at = b + n;
  }
  if (at != (long)d.size()) return "the last event ends at byte " + std::to_string(at) + " of " + std::to_string(d.size()) + "\n";
  return "";
}
// --- C11: an internal entity behaves like its replacement text
// docs[0]: with references, docs[1]: the same with the references replaced
static std::string chk_inline(const Case &c) {
  Case a = c, b = c; a.docs = {c.docs[0]}; b.docs = {c.docs[1]}; a.docs[0].chunks = c.docs[0].chunks; 
  a.handlers = b.handlers = HB(H_START) | HB(H_END) | HB(H_CHARS) | HB(H_PI) | HB(H_COMMENT) | HB(H_SCDATA) | HB(H_ECDATA) | HB(H_SNS) | HB(H_ENS);
  Trace x = run_case(API_SUT, a), y = run_case(API_SUT, b); if (x.overflow || y.overflow) { g_stats->skipped++; return ""; }
  if (y.status != 1) { g_stats->skipped++; return ""; }
  x.ev = coalesce(x.ev, ""); y.ev = coalesce(y.ev, "");
  if (x.status != y.status) return "verdict differs: with references " + std::to_string(x.err) + ", inlined " + std::to_string(y.err) + "\n";
  return finish(c, y, x, 0, "inlined", "with entity references");
}
static void gen_inline(Rng &r, Case &c) {
  c.flags = 0; c.ns = r.below(2); c.sep = "|";
  int n = r.range(1, 6); std::vector<std::string> lit, rep, in; std::string dtd;   // literal, replacement text, inlined text
  std::vector<bool> attok;
  auto pick = [&](const std::vector<std::string> &v) { return v[r.below((uint32_t)v.size())]; };
  for (int i = 0; i < n; i++) {
    std::string L, R, I; bool aok = true; int k = r.range(0, 5);
    for (int j = 0; j < k; j++) {
      int q = r.below(14); std::string nm = pick({"b", "c", "\xC3\xA9"});
      std::string l, rp, il;
      if (q < 3) { l = pick({"text", "\xE4\xB8\xAD", "a\nb", "x y", "]]", "\t", "--", ">", "z"}); rp = il = l; }
      else if (q < 5) { l = "<" + nm + " x='1 2'>t</" + nm + ">"; rp = il = l; aok = false; }
      else if (q < 6) { l = "<" + nm + "/>"; rp = il = l; aok = false; }
      else if (q < 7) { l = pick({"<?pi data?>", "<!-- c -->", "<![CDATA[ <&x ]]>"}); rp = il = l; aok = false; }
      else if (q < 8) { l = pick({"&#65;", "&#x4e2d;", "&#233;"}); rp = il = l == "&#65;" ? "A" : l == "&#233;" ? "\xC3\xA9" : "\xE4\xB8\xAD"; }
      else if (q < 9) { l = "&#60;d/>"; rp = il = "<d/>"; aok = false; }
      else if (q < 10) { l = "&#38;#60;"; rp = il = "&#60;"; }
      else if (q < 11) { l = pick({"&lt;", "&amp;", "&quot;", "&apos;", "&gt;"}); rp = il = l; }
      else if (i > 0) { int e = r.below(i); if (!attok[e]) aok = false; l = rp = "&e" + std::to_string(e) + ";"; il = in[e]; }
      L += l; R += rp; I += il; if (I.size() > 20000) break;
    }
    // the replacement text must be balanced by construction; wrapping keeps ]]> apart
    lit.push_back(L); rep.push_back(R); in.push_back(I); attok.push_back(aok);
    for (size_t p; (p = L.find('"')) != std::string::npos;) L[p] = '.';
    dtd += "<!ENTITY e" + std::to_string(i) + " \"" + L + "\">";
  }
  std::string A = "<r>", B = "<r>"; int k = r.range(1, 8);
  for (int j = 0; j < k; j++) {
    int q = r.below(10);
    if (q < 5) { int e = r.below(n); A += "&e" + std::to_string(e) + ";"; B += in[e]; }
    else if (q < 7) { int e = r.below(n); if (!attok[e]) continue; std::string at = in[e]; for (char &ch : at) if (ch == '\n' || ch == '\t') ch = ' '; for (size_t p; (p = at.find('"')) != std::string::npos;) at.replace(p, 1, "&quot;"); A += "<f y=\"p&e" + std::to_string(e) + ";q\"/>"; B += "<f y=\"p" + at + "q\"/>"; }
    else if (q < 9) { std::string t = pick({"plain", "\n", "<g/>", "<!--k-->", " ", "]"}); A += t; B += t; }
    else { int e = r.below(n); A += "<h>&e" + std::to_string(e) + ";</h>"; B += "<h>" + in[e] + "</h>"; }
    if (B.size() > 60000) break;
  }
  A += "</r>"; B += "</r>"; std::string dt = "<!DOCTYPE r [" + dtd + "]>";
  c.docs.resize(2); c.docs[0].data = dt + A; c.docs[1].data = dt + B;
  c.docs[0].chunks = gen_chunks(r, c.docs[0].data.size(), r.below(8));
}
// --- C11: parameter entities in entity values (own model of literal expansion, XML 1.0 4.5)
static void gen_pevalue(Rng &r, Case &c) {
  c.flags = 0; c.pe = 2; c.ns = 0; c.handlers = H_ALL_NODEF; int n = r.range(1, 6); std::vector<std::string> val; std::string dtd, want; std::vector<int> extn;
  std::vector<Doc> ext;
  auto piece = [&](int upto, std::string &v, bool ex = false) { std::string l; int k = r.range(0, 5);
    for (int j = 0; j < k; j++) { int q = r.below(10); std::string a;
      // (an external one has to consist of declaration tokens: the implementation demands it)
      if (ex && q < 7) { a = r.pick({"text ", " \xE4\xB8\xAD ", " ", "<!-- c -->", "<?a b?>", " (x) ", "'q' ", "\t", "\n", "| "}); l += a; v += a; }
      else if (q < 4) { a = r.pick({"text", "\xE4\xB8\xAD", "<b/>", "]]>", "x y", "&amp;", "&g;", "--", "<!-- c -->", "'", "\t", "\n"}); l += a; v += a; }
      else if (q < 5) { l += "&#65;"; v += "A"; } else if (q < 6) { if (upto < n) continue; l += "&#x25;"; v += "%"; } else if (q < 7) { if (upto < n) continue; l += "&#38;"; v += "&"; }
      else if (upto > 0) { int e = r.below(upto); if (val[e].size() + v.size() > 5000) continue; l += "%p" + std::to_string(e) + ";"; v += val[e]; } }
    return l; };
  for (int i = 0; i < n; i++) {
    std::string v, l;
    if (r.chance(25)) { // external: the text is included as parsed (a quote is just a character there)
      l = piece(i, v, true); std::string sys = "pe" + std::to_string(i) + ".ent"; Doc d; d.sysid = sys; d.data = (r.chance(30) ? "<?xml version='1.0' encoding='UTF-8'?>" : "") + l; d.chunks = gen_chunks(r, d.data.size(), r.below(8)); ext.push_back(d);
      dtd += "<!ENTITY % p" + std::to_string(i) + " SYSTEM '" + sys + "'>"; val.push_back(v); want += "%p" + std::to_string(i) + "\n";
    } else {
      l = piece(i, v); for (char &ch : l) if (ch == '"') ch = '.';
      dtd += "<!ENTITY % p" + std::to_string(i) + " \"" + l + "\">"; val.push_back(v); want += "%p" + std::to_string(i) + "=" + v + "\n";
    }
  }
  int m = r.range(1, 5);
  for (int i = 0; i < m; i++) { std::string v, l = piece(n, v); dtd += "<!ENTITY g" + std::to_string(i) + " \"" + l + "\">"; want += "g" + std::to_string(i) + "=" + v + "\n"; }
  Doc d; d.data = "<!DOCTYPE r SYSTEM 'd.dtd'><r/>"; Doc x; x.sysid = "d.dtd"; x.data = dtd; x.chunks = gen_chunks(r, dtd.size(), r.below(8)); c.docs = {d, x}; for (auto &e : ext) c.docs.push_back(e);
  Doc w; w.sysid = "\x01want"; w.data = want; c.docs.push_back(w);
}
static std::string chk_pevalue(const Case &c) {
  Trace t = run_case(API_SUT, c); g_stats->evals++; g_stats->trace(t, 0); std::string got;
  for (auto &e : t.ev) if (e.k == 'N') { size_t p = e.text.find(" pe="), v = e.text.find(" val="), b = e.text.rfind(" base="); std::string nm = e.text.substr(0, p); bool pe = e.text[p + 4] == '1'; std::string val = unesc(e.text.substr(v + 5, b - v - 5)); if (val == "~") got += "%" + nm + "\n"; else got += (pe ? "%" : "") + nm + "=" + val + "\n"; }
  if (t.status != 1) return "rejected with error " + std::to_string(t.err) + "\n";
  std::string w = c.docs.back().data;
  if (got != w) return "entity values differ\n" + first_diff(w, got, "model", "rexpat");
  if (!t.inv.empty()) return invs(t);
  return "";
}
static bool x_odd(const std::string &n) { size_t k = n.find(':'); return k != std::string::npos && (k == 0 || k + 1 == n.size() || n.find(':', k + 1) != std::string::npos); }
// --- C08: own namespace resolution over the plain (non-namespace) parse
static std::string chk_nsmodel(const Case &c) {
  if (!c.ns || c.ns == 3) return "";
  Case p = c; p.ns = 0; p.trip = 0; p.flags = 0; p.handlers = HB(H_START) | HB(H_END); Trace a = run_case(API_SUT, p);
  Case q = c; q.flags = 0; q.handlers = HB(H_START) | HB(H_END) | HB(H_SNS) | HB(H_ENS); Trace b = run_case(API_SUT, q);
  if (a.overflow || a.status != 1) { g_stats->skipped++; return ""; }
  std::string sep = xe(xc(c.sep).c_str()); const std::string XMLNS = "http://www.w3.org/XML/1998/namespace";
  std::vector<std::pair<std::string, std::string>> scope; std::string out; std::vector<size_t> marks; bool err = false; std::set<int> ec;
  auto expand = [&](const std::string &n, bool attr, bool &bad) { size_t k = n.find(':'); std::string pf = k == std::string::npos ? "" : n.substr(0, k), lo = k == std::string::npos ? n : n.substr(k + 1);
    if (k == std::string::npos && attr) return n;
    if (pf == "xml" ) return XMLNS + sep + lo + (c.trip && !sep.empty() ? sep + pf : "");
    for (size_t i = scope.size(); i--;) if (scope[i].first == pf) { if (scope[i].second.empty()) { if (!pf.empty()) bad = true; return lo; } return scope[i].second + sep + lo + (c.trip && !pf.empty() && !sep.empty() ? sep + pf : ""); }
    if (!pf.empty()) bad = true; return lo; };
  std::string got; 
  for (auto &e : b.ev) if (strchr("SE{}", e.k)) got += std::string(1, e.k) + " " + e.text + "\n";
  for (auto &e : a.ev) {
    if (e.k == 'S') {
      // parse "name a=\"v\" ... #n,-1"
      std::vector<std::pair<std::string, std::string>> at; size_t i = e.text.find(' '); std::string nm = e.text.substr(0, i); size_t h = e.text.rfind(" #"); int nspec = atoi(e.text.c_str() + h + 2) / 2;
      while (i < h) { size_t q1 = e.text.find("=\"", i); size_t q2 = e.text.find('"', q1 + 2); at.push_back({e.text.substr(i + 1, q1 - i - 1), e.text.substr(q1 + 2, q2 - q1 - 2)}); i = q2 + 1; if (x_odd(at.back().first)) { g_stats->skipped++; return ""; } }
      if (x_odd(nm)) { g_stats->skipped++; return ""; }
      marks.push_back(scope.size()); std::string ns; int rem = 0; int k = 0;
      for (auto &x : at) { if (x.first == "xmlns" || x.first.compare(0, 6, "xmlns:") == 0) { std::string pf = x.first == "xmlns" ? "" : x.first.substr(6);
          if (!pf.empty() && x.second.empty()) { err = true; ec.insert(28); } if (pf == "xmlns") { err = true; ec.insert(39); } if (pf == "xml" && x.second != XMLNS) { err = true; ec.insert(38); } if (pf != "xml" && x.second == XMLNS) { err = true; ec.insert(40); } if (x.second == "http://www.w3.org/2000/xmlns/") { err = true; ec.insert(40); }
          if (err) { scope.push_back({pf, x.second}); continue; }
          out += "{ " + (pf.empty() ? std::string("~") : pf) + " " + (x.second.empty() ? "~" : x.second) + "\n"; scope.push_back({pf, x.second}); if (k < nspec) rem++; } k++; }
      std::string s; std::set<std::string> seen; int err8 = 0;
      for (auto &x : at) { if (x.first == "xmlns" || x.first.compare(0, 6, "xmlns:") == 0) continue; bool bad = false; std::string xn = expand(x.first, true, bad); if (bad) { err = true; ec.insert(27); continue; } std::string key = x.first.find(':') == std::string::npos ? "\x01" + x.first : c.trip ? xn.substr(0, xn.rfind(sep)) : xn; if (!sep.empty() && !seen.insert(key).second) err8 = 1; s += " " + xn + "=\"" + x.second + "\""; }
      if (err8) { err = true; ec.insert(8); }
      if (err) break;
      bool bad = false; std::string en = expand(nm, false, bad); if (bad) { err = true; ec.insert(27); break; }
      out += "S " + en + s + " #" + std::to_string(2 * (nspec - rem)) + "," + "?" + "\n";
    } else if (e.k == 'E') {
      bool bad = false; out += "E " + expand(e.text, false, bad) + "\n";
      for (size_t k = scope.size(); k > marks.back(); k--) out += "} " + (scope[k - 1].first.empty() ? "~" : scope[k - 1].first) + "\n";
      scope.resize(marks.back()); marks.pop_back();
    }
  }
  // ID indexes depend on the DTD: not modelled
  std::string g2; { size_t i = 0; while (i < got.size()) { size_t e = got.find('\n', i); std::string l = got.substr(i, e - i); if (l[0] == 'S') { size_t h = l.rfind(','); l = l.substr(0, h + 1) + "?"; } g2 += l + "\n"; i = e + 1; } }
  g_stats->evals++; g_stats->trace(b, 0);
  if (err) { if (ec.count(27) || ec.count(8)) { ec.insert(27); ec.insert(8); } if (!ec.count(b.err)) return "namespace error " + std::to_string(*ec.begin()) + " expected, rexpat reports " + std::to_string(b.err) + "\n"; return ""; }
  if (b.status != 1) return "rejected with error " + std::to_string(b.err) + " a document the model accepts\n";
  if (g2 != out) return "expanded names differ\n" + first_diff(out, g2, "model", "rexpat");
  return "";
}
static void gen_basic(Rng &r, Case &c, int invalid) { GenOpt o; o.ns = c.ns; o.invalid = invalid; gen_case(r, o, c); }
__attribute__((constructor)) static void reg() {
  add("chunk", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); c.flags |= F_ZEROOK | F_INCTX; if (r.chance(30)) c.handlers |= HB(H_DEFAULT) | (r.chance(50) ? HB(H_DEFEXPAND) : 0); gen_basic(r, c, 35); for (auto &d : c.docs) if (r.chance(10)) { std::string o; if (transcode(d.data, r.pick({"UTF-16LE", "UTF-16BE"}), o, true)) d.data = o; } for (auto &d : c.docs) { d.chunks = gen_chunks(r, d.data.size(), r.range(1, 7)); d.mode = r.below(16); } }, chk_chunk);
  add("chunk-soup", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); c.flags |= F_ZEROOK; Doc d; d.data = soup(r, r.range(1, 14), -1); d.chunks = gen_chunks(r, d.data.size(), r.range(1, 4)); d.mode = r.below(16); c.docs.push_back(d); }, chk_chunk);
  add("splits", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); c.flags |= F_ZEROOK; if (r.chance(50)) { GenOpt o; o.ns = c.ns; o.elems = 3; o.invalid = 30; o.longtok = 0; o.attrs = 2; gen_case(r, o, c); } else { Doc d; d.data = soup(r, r.range(1, 10), -1); c.docs.push_back(d); } for (auto &d : c.docs) if (r.chance(15)) { std::string o; if (transcode(d.data, r.pick({"UTF-16LE", "UTF-16BE"}), o, true)) d.data = o; } }, chk_splits);
  add("susp-meta", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); if (r.chance(30)) c.handlers |= HB(H_DEFAULT) | HB(H_DEFEXPAND); else if (r.chance(30)) for (int i = 0; i < 4; i++) c.handlers &= ~HB(r.below(H_N)); GenOpt o; o.ns = c.ns; o.invalid = 10; o.ents = r.chance(50) ? 60 : 30; o.cdata = 20; gen_case(r, o, c); random_chunks(r, c); int n = r.below(4) == 0 ? -1 : r.range(1, 6); if (n < 0) for (int i = 0; i < 150; i++) c.acts.push_back({(uint32_t)i, A_STOP_RES, 0}); else while (n--) c.acts.push_back({(uint32_t)r.below(60), r.chance(85) ? A_STOP_RES : A_STOP_TWICE, 0}); if (r.chance(30)) c.flags |= F_ZEROOK; }, chk_suspmeta);
  add("abort", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); c.flags &= ~F_POS; if (r.chance(30)) c.handlers |= HB(H_DEFAULT) | HB(H_DEFEXPAND); GenOpt o; o.ns = c.ns; o.invalid = 5; gen_case(r, o, c); random_chunks(r, c); c.acts.push_back({(uint32_t)r.below(r.chance(50) ? 15 : 60), A_STOP_FIN, 0}); }, chk_abort);
  add("enc-meta", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); c.flags = (r.chance(70) ? F_POS : 0) | F_CTX; GenOpt o; o.ns = c.ns; o.multibyte = r.chance(40) ? 0 : r.range(5, 60); o.xmldecl = 40; o.invalid = 25; o.longtok = 3; gen_case(r, o, c); random_chunks(r, c); for (size_t i = 0; i < c.docs.size(); i++) c.p.push_back(r.below(40)); if (r.chance(30)) c.flags |= F_CTORENC; }, chk_enc);
  add("handlers-late", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); c.handlers = H_ALL_NODEF; if (r.chance(40)) for (int i = 0; i < H_N; i++) if (i != H_EXT && r.chance(30)) c.handlers &= ~HB(i); GenOpt o; o.ns = c.ns; o.dtd = r.chance(50) ? 100 : 30; o.attlist = 60; o.elemdecl = 40; o.notation = 30; gen_case(r, o, c); random_chunks(r, c); c.flags |= F_LATE; int np = (int)c.docs[0].chunks.size() + 1;
    for (int n = r.range(1, 4); n--;) { static const int K[] = {H_START, H_END, H_CHARS, H_PI, H_COMMENT, H_SCDATA, H_ECDATA, H_SDOCTYPE, H_EDOCTYPE, H_ELEMDECL, H_ATTDECL, H_ATTDECL, H_ENTDECL, H_XMLDECL, H_NOTATION, H_SNS, H_ENS, H_SKIPPED}; c.p.push_back(r.below(np)); c.p.push_back(r.chance(30)); c.p.push_back(K[r.below(18)]); } }, chk_late);
  add("handlers-meta", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); c.handlers = 0; for (int i = 0; i < H_N; i++) if (r.chance(50)) c.handlers |= HB(i); if (r.chance(60)) c.handlers |= HB(H_EXT); gen_basic(r, c, 15); random_chunks(r, c); }, chk_project);
  add("reset", [](Rng &r, uint64_t, Case &c) { Case a, b; common_cfg(r, c); c.flags &= ~F_PARSERARG; a = c; b = c; gen_basic(r, a, 30); gen_basic(r, b, 10); random_chunks(r, a); random_chunks(r, b); if (r.chance(10)) { std::string o; if (transcode(a.docs[0].data, "UTF-16LE", o, true)) a.docs[0].data = o; } c.docs = a.docs; for (auto &d : b.docs) c.docs.push_back(d); c.p = {(long)a.docs.size(), (long)(r.chance(50) ? H_ALL_NODEF : (uint32_t)r.next() & H_ALL), (long)r.below(6)}; if (c.p[2] == 3) c.acts.push_back({(uint32_t)r.below(20), A_STOP_RES, 0}); else if (r.chance(30)) c.acts.push_back({(uint32_t)r.below(20), A_STOP_FIN, 0}); if (c.docs[0].mode & 4) {} }, chk_reset);
  add("reset-clear", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); if (r.chance(30)) c.handlers = H_ALL; gen_basic(r, c, 0); if (r.chance(30)) { std::string &d = c.docs[0].data; if (d.compare(0, 5, "<?xml") != 0) d = std::string("<?xml version='1.0' encoding='") + r.pick({"x-sb1", "x-mb2", "x-bad1", "bogus", "UTF-8"}) + "'?>" + d; } c.p = {(long)r.below(2)}; }, chk_resetclear);
  add("default", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); c.p = {(long)r.below(2)}; GenOpt o; o.ns = c.ns; o.pe = 0; o.ents = c.p[0] ? 0 : 30; gen_case(r, o, c); random_chunks(r, c); if (r.chance(10)) c.docs[0].data.insert(0, "\xEF\xBB\xBF"); }, chk_default);
  add("tiles", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); c.foreign = 0; c.handlers = (uint32_t)r.next() & H_ALL; GenOpt o; o.ns = c.ns; o.dtd = 0; o.undeclared = 0; gen_case(r, o, c); random_chunks(r, c); }, chk_tiles);
  add("ent-inline", [](Rng &r, uint64_t, Case &c) { gen_inline(r, c); }, chk_inline);
  add("ent-value", [](Rng &r, uint64_t, Case &c) { gen_pevalue(r, c); }, chk_pevalue);
  add("ns-model", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); c.ns = r.range(1, 2); if (c.sep.empty()) c.sep = "|"; c.handlers = 0; GenOpt o; o.ns = true; o.elems = 16; o.attrs = 5; o.dtd = 40; o.subset = 90; o.attlist = 80; o.comments = o.pis = o.cdata = 2; o.ents = 10; o.dupattr = 4; o.undeclared = 0; o.invalid = 0; gen_case(r, o, c); random_chunks(r, c); }, chk_nsmodel);
}
