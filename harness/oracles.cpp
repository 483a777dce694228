#include "oracles.h"
#include <cstring>
#include <algorithm>
Stats *g_stats; int g_tier = 0;
std::vector<Sub> &subs() { static std::vector<Sub> v; return v; }

std::string first_diff(const std::string &a, const std::string &b, const char *na, const char *nb) {
  if (a == b) return "";
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t ls = a.rfind('\n', i ? i - 1 : 0); ls = ls == std::string::npos ? 0 : ls + 1;
  size_t prev = ls > 1 ? a.rfind('\n', ls - 2) : std::string::npos; prev = prev == std::string::npos ? 0 : prev + 1;
  auto lines = [&](const std::string &s) { std::string o; size_t p = prev; for (int k = 0; k < 4 && p < s.size(); k++) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); o += "    " + s.substr(p, std::min<size_t>(e - p, 400)) + "\n"; p = e + 1; } return o; };
  return std::string("  ") + na + ":\n" + lines(a) + "  " + nb + ":\n" + lines(b);
}
std::string invs(const Trace &t) { std::string o; for (auto &s : t.inv) { o += "  invariant: " + s + "\n"; if (o.size() > 1000) break; } return o; }

// differential oracle: the reference model and rexpat must report the same trace
static bool uri_char(char c) { return isalnum((unsigned char)c) || (c && strchr("%-._~:/?#[]@!$&'()*+,;=", c)); }
// The text after a reference to an undeclared parameter entity inside an entity value is unspecified (2.2.9 drops it,
// the reference keeps it or drops it depending on the nesting).
// Is position `at` of a DTD (or of a document with one) certainly not inside the literal of an entity declaration?
static bool outside_entity_value(const std::string &t, size_t at) {
  size_t i = 0; char q = 0; bool decl = false, ent = false;
  if (t.find('\0') != std::string::npos) return false;
  while (i < at) {
    if (q) { if (t[i] == q) q = 0; i++; continue; }
    if (!t.compare(i, 4, "<!--")) { size_t e = t.find("-->", i + 4); if (e == std::string::npos || e >= at) return true; i = e + 3; continue; }
    if (!t.compare(i, 2, "<?")) { size_t e = t.find("?>", i + 2); if (e == std::string::npos || e >= at) return true; i = e + 2; continue; }
    if (!t.compare(i, 3, "<![")) { i += 3; continue; }
    if (!t.compare(i, 2, "<!")) { decl = true; ent = !t.compare(i, 8, "<!ENTITY"); i += 2; continue; }
    if (t[i] == '<') return true;               // the root element
    if (t[i] == '[') decl = false; else if (t[i] == '>') decl = false;
    else if (t[i] == '"' || t[i] == '\'') { if (!decl) return false; q = t[i]; }
    else if (t[i] == '%' && decl) return false;  // (its declarations may be made by parameter entities)
    i++;
  }
  return q ? !ent : !decl;
}
static bool undeclared_pe_in_value(const Case &c, const Trace &r) {
  std::set<std::string> decl; for (auto &e : r.ev) if (e.k == 'N') { size_t p = e.text.find(" pe=1"); if (p != std::string::npos) decl.insert(e.text.substr(0, p)); }
  std::vector<std::string> where; for (auto &d : c.docs) where.push_back(d.data); for (auto &e : r.ev) if (e.k == 'N' && e.text.find(" pe=1 val=") != std::string::npos) where.push_back(e.text.substr(e.text.find(" val=")));   // (made by a character reference)
  for (auto &s : where) {
    for (size_t i = 0; (i = s.find('%', i)) != std::string::npos; i++) {
      size_t j = s.find(';', i); if (j == std::string::npos) break;
      std::string n = s.substr(i + 1, j - i - 1); if (n.empty() || n.find_first_of(" \t\r\n<>%\"'&#()[],*+?|=!/$") != std::string::npos || decl.count(xe((const XML_Char *)xc(n).c_str())) || (&s >= &where[c.docs.size()] && decl.count(n))) continue;
      size_t w = &s - &where[0]; if ((w == 0 || (w < c.docs.size() && (c.docs[w].sysid == "dtd.dtd" || c.docs[w].sysid.empty()))) && outside_entity_value(s, i)) continue;
      if (w && w < c.docs.size() && c.docs[w].sysid[0] == 'e' && s.find("<!") == std::string::npos) continue;
      return true;
    }
  }
  return false;
}
// Reference 2.6.1-2ubuntu0.6 loses the rest of an external parameter entity that is read inside an entity value
// after a nested parameter entity reference (rexpat is checked on these by the entity model instead).
// It also leaves the nested entity open, so that a later reference to it is reported as recursive.
static bool nested_pe_in_external_value(const Trace &r, const Trace &s) {
  for (const Trace *t : {&s, &r}) {
    auto &v = t->ev;
    for (size_t i = 0; i < v.size(); i++) if (v[i].k == 'Z') {       // a child whose reading produced no event of its own
      size_t j = i + 1; while (j < v.size() && v[j].depth == v[i].depth && strchr("ApcF", v[j].k)) j++; bool quiet = true, pct = false;
      for (; j < v.size() && v[j].depth > v[i].depth; j++) { if (!strchr("Z.!KAuXsFpc", v[j].k)) quiet = false; if (v[j].depth == v[i].depth + 1 && v[j].doc && v[j].doc->find('%') != std::string::npos) pct = true; }
      if (quiet && pct) return true;
    }
  }
  return false;
}
// line and column of a byte offset, from the bytes alone
void linecol(const std::string &d, long idx, unsigned long &line, unsigned long &col) {
  line = 1; col = 0; size_t w = 1, b = 0; bool be = false;
  if (d.size() >= 2) { unsigned char x = d[0], y = d[1]; if ((x == 0xFF && y == 0xFE) || (x && !y)) w = 2; else if ((x == 0xFE && y == 0xFF) || (!x && y)) { w = 2; be = true; } }
  bool cr = false;
  for (size_t i = b; i + w <= d.size() && (long)i < idx; i += w) {
    uint32_t c = (unsigned char)d[i]; if (w == 2) c = be ? c << 8 | (unsigned char)d[i + 1] : c | (unsigned char)d[i + 1] << 8;
    if (c == 13) { line++; col = 0; cr = true; continue; }
    if (c == 10) { if (!cr) line++; col = 0; cr = false; continue; }
    cr = false;
    if (w == 1 ? (c & 0xC0) != 0x80 : (c & 0xFC00) != 0xDC00) col++;
  }
}
std::string check_diff(const Case &c) {
  Trace r = run_case(API_REF, c); if (r.overflow) { g_stats->skipped++; return ""; }
  return judge_diff(c, r, run_case(API_SUT, c));
}
bool ref_brackets(Case &k) {
  bool cut = false, ign = false; for (auto &x : k.docs) if (x.data.find("IGNORE") != std::string::npos || x.data.find(std::string("I\0G\0N\0O\0R\0E", 11)) != std::string::npos) ign = true;
  if (ign) for (auto &x : k.docs) for (const std::string &w : {std::string("]]]"), std::string("]\0]\0]\0", 6), std::string("\0]\0]\0]", 6)}) if (x.data.find("<") != std::string::npos && x.data.find("[") != std::string::npos) for (size_t p = 0; (p = x.data.find(w, p)) != std::string::npos;) { x.data[w[0] ? p : p + 1] = 'x'; cut = true; }
  return cut;
}
bool ref_include(const Case &c, const Trace &r) {
  bool cond = false, inc = false; for (auto &x : c.docs) if (x.data.find("<![") != std::string::npos || x.data.find(std::string("<\0!\0[", 5)) != std::string::npos) cond = true;
  for (auto &e : r.ev) if ((e.k == '!' && e.text == "err=29") || (e.k == 'Q' && e.text.find(" err 29 ") != std::string::npos)) inc = true;
  return cond && inc;
}
std::string judge_diff(const Case &c, Trace r, Trace s) {
  Case k = c;                     // (traces refer to the documents of the case they were made from)
  // at the end of an external entity the position of the last event is lost when the buffer had to grow
  if (r.ev.size() == s.ev.size()) for (size_t i = 0; i < r.ev.size(); i++) if (r.ev[i].k == '.' && s.ev[i].k == '.' && r.ev[i].depth && (r.ev[i].pos.idx == -1 || s.ev[i].pos.idx == -1)) s.ev[i].pos = r.ev[i].pos;
  std::string d = first_diff(r.render(c.flags), s.render(c.flags), "reference", "rexpat");
  if (!d.empty() && c.ns && c.ns != 3 && !c.sep.empty() && !uri_char(c.sep[0])) {
    // The reference (2.6.1) refuses a separator inside a namespace URI unless it is a URI character;
    // 2.2.9 and rexpat leave that to the application: outside the domain, judge with another separator.
    bool re = false; for (auto &e : r.ev) if (e.k == '!' && e.text == "err=2") re = true;
    if (re) { k.sep = "#"; r = run_case(API_REF, k); s = run_case(API_SUT, k); d = first_diff(r.render(c.flags), s.render(c.flags), "reference", "rexpat"); }
  }
  if (!d.empty() && !c.acts.size()) { // the reference counts a CR LF in the epilog twice when a piece ends between the two
    bool moved = false;
    for (auto &x : k.docs) { size_t at = 0; std::vector<int> n; int acc = 0; for (size_t i = 0; i < x.chunks.size(); i++) { at += x.chunks[i]; acc += x.chunks[i]; bool cr = false; for (size_t j = 1; j < 4 && j <= at && at < x.data.size(); j++) if (x.data[at - j] == '\r') cr = true; if (cr) moved = true; else { n.push_back(acc); acc = 0; } } x.chunks = n; }
    if (moved) { r = run_case(API_REF, k); s = run_case(API_SUT, k); d = first_diff(r.render(c.flags), s.render(c.flags), "reference", "rexpat"); }
  }
  if (!d.empty() && r.ev.size() == s.ev.size()) { // ... or the parse was suspended between the two: judge the position by the text itself
    for (size_t i = 0; i < r.ev.size(); i++) {
      Event &a = r.ev[i], &b = s.ev[i]; if (a.k != b.k || a.pos.idx != b.pos.idx || (a.pos.line == b.pos.line && a.k != 'p') || !a.doc || a.doc->find('\r') == std::string::npos) continue;
      unsigned long l, q; if (a.k == 'p' && a.text != b.text) { linecol(*b.doc, atol(b.text.substr(b.text.rfind(':') + 1).c_str()), l, q); if (b.text.compare(0, b.text.rfind(':'), std::to_string(l) + ":" + std::to_string(q)) == 0) a.text = b.text; }
      linecol(*b.doc, b.pos.idx, l, q); if (b.pos.line == l) a.pos = b.pos;
    }
    d = first_diff(r.render(c.flags), s.render(c.flags), "reference", "rexpat");
  }
#ifdef XML_UNICODE
  if (!d.empty()) { // the reference loses the last code unit of a long text in UTF-16BE that ends in a surrogate: judge by its reading of UTF-16LE
    bool be = false; Case w = k; for (auto &x : w.docs) if (x.data.compare(0, 2, "\xFE\xFF") == 0 || x.enc == "UTF-16BE") { be = true; for (size_t i = 0; i + 1 < x.data.size(); i += 2) std::swap(x.data[i], x.data[i + 1]); if (x.enc == "UTF-16BE") x.enc = "UTF-16LE"; }
    if (be) { Trace q = run_case(API_REF, w); std::string e = first_diff(q.render(c.flags), s.render(c.flags), "reference", "rexpat"); if (e.empty()) d = e; }
  }
#endif
  if (!d.empty()) { // the reference does not see the end of an ignored section that is preceded by a bracket
    bool cut = ref_brackets(k);
    if (cut) { Trace q = run_case(API_REF, k), t = run_case(API_SUT, k); std::string e = first_diff(q.render(c.flags), t.render(c.flags), "reference", "rexpat"); if (e.empty()) d = e; else k = c; }
  }
  if (!d.empty()) { // it also refuses references to parameter entities between declarations inside an INCLUDE section
    if (ref_include(c, r)) { g_stats->skipped++; return ""; }
  }
  if (!d.empty() && (undeclared_pe_in_value(c, r) || nested_pe_in_external_value(r, s))) { g_stats->skipped++; return ""; }
  g_stats->evals++; g_stats->trace(s, c.flags);
  if (!d.empty()) return "event traces differ\n" + d;
  if (!s.inv.empty()) return invs(s);
  if (s.leak) return "  library blocks still allocated after XML_ParserFree: " + std::to_string(s.leak) + "\n";
  return "";
}
void add(const char *n, std::function<void(Rng &, uint64_t, Case &)> g, std::function<std::string(const Case &)> c, long total) { Sub s; s.name = n; s.gen = g; s.check = c; s.total = total; subs().push_back(s); }
void common_cfg(Rng &r, Case &c) {
  c.ns = r.chance(50) ? 0 : r.range(1, 3); c.sep = r.pick({"|", " ", "\n", "#", ":", "!", "@", "\x01"} ); if (r.chance(5)) c.sep = "";
  c.trip = c.ns && r.chance(30); c.pe = r.below(3); c.foreign = r.chance(5); c.flags = F_POS | F_CTX;
  if (r.chance(35)) c.base = r.chance(50) ? "http://base/" : "@/";
}
