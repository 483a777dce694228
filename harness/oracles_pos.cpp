// Positions, counts and text pieces of every single callback, recomputed from the bytes of the entity by an independent decoder.
// p[0]: encoding of the document entity
#include "oracles.h"
#include <cstring>
#include <algorithm>
typedef std::string str;
static const char *const ENC[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "US-ASCII", "x-sb1", "x-sb2", "x-mb2", "x-mb4"};
struct Dec { std::vector<uint32_t> cp; std::vector<long> at; std::vector<unsigned> line, col; };   // one entry per character, plus the end
static bool decode(const str &d, const str &enc, Dec &o) {
  size_t i = 0, n = d.size(); str e = enc; auto b = [&](size_t k) { return (uint32_t)(unsigned char)d[k]; };
  if (n >= 2 && b(0) == 0xFF && b(1) == 0xFE) e = "UTF-16LE"; else if (n >= 2 && b(0) == 0xFE && b(1) == 0xFF) e = "UTF-16BE";
  std::vector<int> map; std::map<str, uint32_t> inv; if (e.compare(0, 2, "x-") == 0 && !enc_decode_table(e, map).empty()) return false;
  XML_Encoding ue; UE rl; if (!map.empty()) unknown_encoding(e, &ue, &rl);
  while (i < n) {
    uint32_t c; size_t k;
    if (e == "UTF-8") { c = b(i); k = c < 0x80 ? 1 : c < 0xC2 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF5 ? 4 : 0; if (!k || i + k > n) return false; if (k > 1) c &= 0x7F >> k; for (size_t j = 1; j < k; j++) { if ((b(i + j) & 0xC0) != 0x80) return false; c = c << 6 | (b(i + j) & 63); } }
    else if (e == "UTF-16LE" || e == "UTF-16BE") {
      int l = e == "UTF-16LE"; auto u = [&](size_t j) { return l ? b(j) | b(j + 1) << 8 : b(j) << 8 | b(j + 1); };
      if (i + 2 > n) return false; c = u(i); k = 2; if ((c & 0xFC00) == 0xDC00) return false; if ((c & 0xFC00) == 0xD800) { if (i + 4 > n || (u(i + 2) & 0xFC00) != 0xDC00) return false; c = 0x10000 + ((c & 1023) << 10) + (u(i + 2) & 1023); k = 4; }
    } else if (!map.empty()) { int m = map[b(i)]; if (m >= 0) { c = m; k = 1; } else { k = (size_t)-m; if (k < 2 || i + k > n) return false; int v = ue.convert(ue.data, d.data() + i); if (v < 0) return false; c = (uint32_t)v; } }
    else { c = b(i); k = 1; if (e == "US-ASCII" && c >= 0x80) return false; }
    o.cp.push_back(c); o.at.push_back((long)i); i += k;
  }
  o.at.push_back((long)n); unsigned l = 1, q = 0;
  for (size_t j = 0; j <= o.cp.size(); j++) { o.line.push_back(l); o.col.push_back(q); if (j == o.cp.size()) break; uint32_t c = o.cp[j]; if (c == '\r') { l++; q = 0; } else if (c == '\n') { if (!(j && o.cp[j - 1] == '\r')) l++; q = 0; } else q++; }
  return true;
}
static long where(const Dec &d, long idx) { auto i = std::lower_bound(d.at.begin(), d.at.end(), idx); return i == d.at.end() || *i != idx ? -1 : i - d.at.begin(); }
static str u8(const Dec &d, long a, long b) { str s; for (; a < b; a++) utf8_put(s, d.cp[a]); return s; }
static bool starts(const str &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool ends(const str &s, const char *p) { size_t n = strlen(p); return s.size() >= n && s.compare(s.size() - n, n, p) == 0; }
static str chk(const Case &c) {
  Case w = c; w.flags |= F_POS | F_RAW; Trace t = run_case(API_SUT, w); if (t.overflow) { g_stats->skipped++; return ""; }
  if (!t.inv.empty()) return invs(t);
  if (c.docs[0].data.size() < 4 || !c.docs[0].data[0]) { g_stats->skipped++; return ""; }   // (too short to tell the encoding)
  std::map<const str *, Dec> ds; std::map<const str *, bool> ok; bool dtd = c.docs[0].data.size() && c.p[1]; bool startH = c.handlers & HB(H_START), all = !dtd && c.acts.empty() && (w.handlers & HB(H_DEFAULT)) && !(w.handlers & (HB(H_SNS) | HB(H_ENS)));
  auto entity = [&](const str *d) -> Dec * { if (!ok.count(d)) { str e = d == &w.docs[0].data ? ENC[c.p[0]] : "UTF-8"; ok[d] = decode(*d, e, ds[d]); } return ok[d] ? &ds[d] : nullptr; };
  bool cd = false; long n = 0; const Dec *D0 = entity(&w.docs[0].data); long tile = D0 && !D0->cp.empty() && D0->cp[0] == 0xFEFF ? D0->at[1] : 0;
  for (auto &e : t.ev) {
    if (!e.doc || strchr("ARFcpzu", e.k)) { if (e.k != 'p' || !e.doc) continue; }
    Dec *d = entity(e.doc); if (!d) continue;
    auto bad = [&](const str &what) { return str("event ") + e.k + " " + esc(e.text) + " @" + std::to_string(e.pos.line) + ":" + std::to_string(e.pos.col) + ":" + std::to_string(e.pos.idx) + "+" + std::to_string(e.pos.cnt) + ": " + what + "\n" + t.render(F_POS | F_RAW).substr(0, 1500); };
    long idx = e.pos.idx; unsigned long line = e.pos.line, col = e.pos.col;
    if (e.k == 'p' && sscanf(e.text.c_str(), "%lu:%lu:%ld", &line, &col, &idx) != 3) continue;
    if (idx < 0) continue;
    if (e.k == '!' || e.k == '.') { if (e.k == '.') continue; if (w.docs[0].chunks.size() || idx > (long)e.doc->size()) continue; }
    long i = where(*d, idx); if (i < 0) return bad("the byte index is not the start of a character");
    n++;
    if (line != d->line[i] || col != d->col[i]) return bad("line and column of this byte index are " + std::to_string(d->line[i]) + ":" + std::to_string(d->col[i]));
    if (e.k == 'p' || e.k == '!') continue;
    long j = where(*d, idx + e.pos.cnt); if (e.k == 'N' && e.pos.cnt < 0 && t.status != 1) continue; if (j < 0 || j < i) return bad("the event does not end with a character");
    str s = u8(*d, i, j);
    // (in a CDATA section the count of each piece of a converted run of text reaches to the end of the run)
    if (e.k == 'T' && (cd || !(w.handlers & HB(H_SCDATA))) && s.size() > e.text.size() && e.text.size() > 900 / sizeof(XML_Char) && starts(s, e.text.c_str())) { std::vector<uint32_t> q; if (utf8_decode(e.text, q)) { j = i + (long)q.size(); s = e.text; e.pos.cnt = (int)(d->at[j] - idx); } }
    bool ref = s.size() > 2 && s[0] == '&' && s.back() == ';';
    if (all && e.depth == 0) { bool empty = e.k == 'E' && (e.pos.cnt == 0 || ends(s, "/>")); if (e.k == 'E' && empty) { if (idx + e.pos.cnt != tile && idx != tile) return bad("the end of an empty element is not where its start was"); if (idx == tile) tile = idx + e.pos.cnt; } else { if (idx != tile) return bad("the previous event ended at " + std::to_string(tile)); tile = idx + e.pos.cnt; } }
    if (e.k == '[') cd = true; if (e.k == ']') cd = false;
    switch (e.k) {
      case 'T': if (ref && s == e.text && (cd || !(w.handlers & HB(H_SCDATA)))) break; if (ref) { if (s[1] == '#' || s == "&lt;" || s == "&gt;" || s == "&amp;" || s == "&quot;" || s == "&apos;") { str v; if (s[1] == '#') { uint32_t u = s[2] == 'x' ? (uint32_t)strtoul(s.c_str() + 3, 0, 16) : (uint32_t)strtoul(s.c_str() + 2, 0, 10); utf8_put(v, u); } else v = s == "&lt;" ? "<" : s == "&gt;" ? ">" : s == "&amp;" ? "&" : s == "&quot;" ? "\"" : "'"; if (v != e.text) return bad("the reference " + s + " is reported as this"); } else if (!dtd) return bad("text from an entity without declarations"); break; }
        if (s.empty() && starts(e.text, "]") && idx + 4 >= (long)e.doc->size()) break; if (e.text == "\n" ? s != "\n" && s != "\r" && s != "\r\n" : s != e.text) return bad("the bytes there are " + esc(s)); break;
      case 'D': if (ref && dtd) break; if (s != e.text && !dtd) return bad("the bytes there are " + esc(s)); break;
      case 'S': if (ref && dtd) break; if (s[0] != '<' || s.back() != '>' || s.size() < 3 || strchr("/!?", s[1])) return bad("the bytes there are " + esc(s)); break;
      case 'E': if (ref && dtd) break; if (s.empty()) { if (!startH || idx < 2 || d->cp[i - 1] != '>' || d->cp[i - 2] != '/') return bad("an end without extent not after an empty element"); } else if (s[0] != '<' || s.back() != '>' || (s[1] != '/' && !ends(s, "/>"))) return bad("the bytes there are " + esc(s)); break;
      case 'C': if (ref && dtd) break; if (dtd && s[0] == '%') break; if (!starts(s, "<!--") || !ends(s, "-->")) return bad("the bytes there are " + esc(s)); break;
      case 'P': if (ref && dtd) break; if (dtd && s[0] == '%') break; if (!starts(s, "<?") || !ends(s, "?>")) return bad("the bytes there are " + esc(s)); break;
      case '[': if (ref && dtd) break; if (s != "<![CDATA[") return bad("the bytes there are " + esc(s)); break;
      case ']': if (ref && dtd) break; if (s != "]]>") return bad("the bytes there are " + esc(s)); break;
      case 'X': if (e.depth == 0 && (!starts(s, "<?xml") || !ends(s, "?>"))) return bad("the bytes there are " + esc(s)); break;
    }
  }
  if (all && t.status == 1 && D0 && tile != (long)c.docs[0].data.size()) return "the last event ends at byte " + std::to_string(tile) + " of " + std::to_string(c.docs[0].data.size()) + "\n";
  g_stats->evals++; g_stats->steps += n; g_stats->trace(t, w.flags);
  return "";
}
static void gen(Rng &r, Case &c) {
  common_cfg(r, c); c.foreign = 0; c.flags = r.chance(50) ? F_INCTX : 0; c.p = {0, 0}; GenOpt o; o.ns = c.ns; o.multibyte = r.pick(std::vector<int>{0, 20, 60}); o.nl = r.pick(std::vector<int>{5, 40, 80}); o.elems = r.range(1, 14); o.undeclared = 0; o.recursive = 0; o.invalid = r.chance(10) ? 60 : 0;
  bool dtd = r.chance(35); o.dtd = dtd ? 100 : 0; if (r.chance(50)) c.handlers |= HB(H_DEFAULT); if (r.chance(60)) c.handlers &= ~(HB(H_SNS) | HB(H_ENS)); if (r.chance(15)) o.longtok = 40;
  gen_case(r, o, c); c.p[1] = dtd;
  if (r.chance(30)) {   // long runs of text, also in CDATA sections
    str &d = c.docs[0].data; for (int k = r.range(1, 4); k--;) { size_t p = d.find('<', r.below((uint32_t)d.size())); if (p == str::npos || p == 0) continue; str body; long n = r.pick(std::vector<int>{30, 1020, 1024, 1030, 2060, 4100}) + r.below(7); int brk = r.pick(std::vector<int>{0, 0, 1, 3});
      while ((long)body.size() < n) { if (r.chance(brk)) body += r.pick({"\n", "\r", "\r\n", "]", "]]"}); else if (r.chance(o.multibyte)) utf8_put(body, r.pick(std::vector<uint32_t>{0xE9, 0x3b1, 0x4e2d, 0xff5e, 0x1f600, 0x10000})); else body += (char)('a' + r.below(26)); }
      size_t q = d.find("</", r.below((uint32_t)d.size())); if (q == str::npos) q = d.find("</"); if (q == str::npos) continue; if (r.chance(50)) { while (body.find("]]>") != str::npos) body.erase(body.find("]]>"), 3); body = "<![CDATA[" + body + "x]]>"; } d.insert(q, body); }
  }
  if (r.chance(60)) {
    int e = r.below(9); str t; if (!transcode(c.docs[0].data, ENC[e], t, (e < 3) && r.chance(50))) { e = r.below(3); if (!transcode(c.docs[0].data, ENC[e], t, r.chance(50))) e = 0, t = c.docs[0].data; }
    c.p[0] = e; c.docs[0].data = t; c.docs[0].enc = ENC[e]; if (e >= 5) c.handlers |= HB(H_UNKENC);
  }
  random_chunks(r, c);
  if (r.chance(30)) for (int k = r.range(1, 6); k--;) { Act a; a.ev = r.below(40); a.kind = A_POS; a.arg = 0; c.acts.push_back(a); }
  if (!dtd && r.chance(20)) for (int k = r.range(1, 4); k--;) { Act a; a.ev = r.below(40); a.kind = A_STOP_RES; a.arg = 0; c.acts.push_back(a); }
}
__attribute__((constructor)) static void reg() { add("linecol", [](Rng &r, uint64_t, Case &c) { gen(r, c); }, chk); }
