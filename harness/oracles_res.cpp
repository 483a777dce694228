// Resources: what a parser holds depends on the tokens and the open elements, not on the length of the document, and
// all of it is released when the parser is freed, in whatever state it is.
#include "oracles.h"
#include <cstring>
#include <algorithm>
typedef std::string str;
// --- bound: the same pattern N and 4N times (p: N, piece length; doc 0: "prologue\0unit\0epilogue")
static Case stretch(const Case &c, long n) {
  Case k = c; str &d = k.docs[0].data; size_t a = d.find('\0'), b = d.find('\0', a + 1); str pre = d.substr(0, a), unit = d.substr(a + 1, b - a - 1), post = d.substr(b + 1);
  d = pre; d.reserve(n * unit.size() + 200); for (long i = 0; i < n; i++) d += unit; d += post;
  long step = c.p[1]; k.docs[0].chunks.clear(); for (size_t at = 0; at + step < d.size(); at += step) k.docs[0].chunks.push_back((int)step); return k;
}
struct Use { long peak, status; bool over; long leak; };
static Use use(const Api &a, const Case &c) { Runner r(a, c); r.maxEvents = 100000000; r.quiet = true; Trace &t = r.run(); return {t.peak, t.status, t.overflow, t.leak}; }
static str chk_bound(const Case &c) {
  Case k1 = stretch(c, c.p[0]), k4 = stretch(c, 4 * c.p[0]); Use r1 = use(API_REF, k1), r4 = use(API_REF, k4); 
  if (r4.peak - r1.peak > 40000 || r4.status != r1.status) { g_stats->skipped++; return ""; }   // the pattern itself accumulates (declarations)
  Use s1 = use(API_SUT, k1), s4 = use(API_SUT, k4); g_stats->evals++; g_stats->runs += 2; g_stats->nontrivial++; g_stats->seen(std::hash<str>()(c.docs[0].data) ^ (uint64_t)c.p[1]); g_stats->extra[0] += 4 * c.p[0]; if (s4.status == 1) g_stats->accepted++; else g_stats->rejected++;
  if (s4.status != r4.status) return "";   // (compared elsewhere)
  long slack = 24000 + 4 * c.p[1]; 
  if (s4.peak - s1.peak > slack) return "  peak memory grows with the number of repetitions: " + std::to_string(s1.peak) + " bytes for " + std::to_string(c.p[0]) + ", " + std::to_string(s4.peak) + " for " + std::to_string(4 * c.p[0]) + " (reference: " + std::to_string(r1.peak) + ", " + std::to_string(r4.peak) + ")\n";
  if (s4.leak) return "  library blocks still allocated: " + std::to_string(s4.leak) + "\n";
  return "";
}
static void gen_bound(Rng &r, Case &c) {
  static const char *const U[] = {"<a/>", "<a b='c' d='e'>text</a>", "<p:a xmlns:p='urn:u'><p:b p:x='1'/></p:a>", "<!--comment-->", "<?pi some data?>", "<![CDATA[<x>]]>", "&e;", "&x;", "&nest;", "text &amp; &#65;\r\nmore", "<a xmlns='urn:1'><a xmlns='urn:2'/></a>", "<b i=' &e; x ' j='&#10;'/>", "<a><b><c><d></d></c></b></a>", "<dflt/>", "<dflt n='  1  2 '/>", "\xc3\xa9\xe4\xb8\xad\xf0\x9f\x98\x80", "&#x1F600;", "<q:r xmlns:q='http://a/very/long/namespace/name/that/is/longer/than/usual' q:s='&lt;'/>", "]]", "\r", "<a b='1' c='2' d='3' e='4' f='5' g='6' h='7' i='8' j='9' k='10'/>", "<\xc3\xa9l\xc3\xa9ment \xce\xb1='\xce\xb2'/>", "<a xml:lang='en' xml:space='preserve'>\n</a>"};
  static const char *const I[] = {"<!--comment-->", "<?pi data?>", "%pe;", "\r\n\t", "<!NOTATION n SYSTEM 'n'>", "<!ENTITY e 'again'>", "<!ENTITY x SYSTEM 'other'>", "<!ENTITY % pe 'again'>", "<!ELEMENT dflt (a,(b|c)*,d?)>", "<!ELEMENT a (#PCDATA|b|c)*>", "%xpe;"};
  common_cfg(r, c); c.flags = 0; if (c.base[0] == '@') c.base = "http://base/"; /* bases are kept as long as the DTD */ if (r.chance(50)) { c.handlers = H_ALL & ~(HB(H_DEFAULT) | HB(H_DEFEXPAND)); } else c.handlers = (uint32_t)r.next() & H_ALL; c.handlers |= HB(H_EXT); c.sep = "|";
  bool dtd = r.chance(25); c.pe = r.chance(50) ? 2 : 0; str unit, pre, post, ents = "<!ENTITY e 'text'><!ENTITY x SYSTEM 'x'><!ENTITY nest '<a>&e;</a>&e;'><!ENTITY % pe '<!--p-->'><!ENTITY % xpe SYSTEM 'xpe'><!ATTLIST dflt v CDATA 'val &e;' n NMTOKENS #IMPLIED w ID #IMPLIED xmlns:z CDATA 'urn:z'>";
  for (int k = r.range(1, 4); k--;) { str u = dtd ? r.pick(I) : r.pick(U); if (!dtd && r.chance(10)) { u = "<a b='" + str(r.range(50, 1500), 'v') + "'/>"; if (r.chance(50)) u = "<" + str(r.range(50, 600), 'n') + "/>"; if (r.chance(30)) u = str(r.range(500, 3000), 't'); } unit += u; }
  if (dtd) { pre = "<!DOCTYPE a [" + ents; post = "]><a/>"; }
  else { pre = "<!DOCTYPE a [" + ents + "]><a xmlns:p='urn:u'>"; for (int k = r.below(5); k--;) pre += "<a>", post += "</a>"; post += "</a>"; if (r.chance(15)) { pre += post; post = ""; unit = r.pick({"<!--c-->", "<?p i?>", "\r\n", "<!--c-->\n<?p?>"}); } }
  Doc d; d.data = pre + str(1, '\0') + unit + str(1, '\0') + post; d.mode = r.chance(50) ? 0 : r.below(16); c.docs.push_back(d);
  Doc x; x.sysid = "x"; x.data = r.pick({"<a>ext &e;</a>", "text", "<?xml encoding='UTF-8'?><p:a xmlns:p='urn:u'/>", "<a>", ""}); c.docs.push_back(x); Doc y; y.sysid = "xpe"; y.data = r.pick({"<!--ext-->", "", "<?xml encoding='UTF-8'?><!ENTITY e 'no'>", "<![IGNORE[x]]>", "<![INCLUDE[<?p i?>]]>"}); c.docs.push_back(y);
  long n = std::max<long>(300, 60000 / (long)std::max<size_t>(unit.size(), 10)); n = std::min<long>(n, 3000); c.p = {n, (long)r.pick(std::vector<int>{1, 3, 17, 100, 1000, 1024, 4096, 20000})};
  if (c.p[1] < 17) c.p[0] = std::min<long>(c.p[0], 1000);
}
// --- free: the parse is left at a random point (p: bytes given; kind of end)
static str chk_free(const Case &c) {
  long b = g_alloc.live; Runner r(API_SUT, c); XML_Parser p = make_parser(API_SUT, c, ""); if (!p) return "";
  r.stack.push_back({p, &c.docs[0]}); r.configure(p); size_t n = std::min<size_t>((size_t)c.p[0], c.docs[0].data.size()), at = 0; int st = 1, i = 0; XML_ParsingStatus ps; memset(&ps, 0, sizeof ps);
  while (at < n && st == 1) { size_t k = i < (int)c.docs[0].chunks.size() ? (size_t)c.docs[0].chunks[i] : n; i++; k = std::min(k, n - at); str x(c.docs[0].data, at, k); { InLib g; st = API_SUT.XML_Parse_(p, x.data(), (int)k, 0); } at += k; int guard = 0; while (st == XML_STATUS_SUSPENDED && !(c.p[1] & 1) && guard++ < 3000) { InLib g; st = API_SUT.XML_ResumeParser_(p); } }
  { InLib g; API_SUT.XML_GetParsingStatus_(p, &ps); } g_stats->extra[1 + ps.parsing]++;
  if (c.p[1] & 2) { InLib g; API_SUT.XML_GetBuffer_(p, 5000); }
  if (c.p[1] & 4) { InLib g; API_SUT.XML_ParserReset_(p, nullptr); if (c.p[1] & 8) API_SUT.XML_Parse_(p, "<a b='c'>", 9, 0); }
  r.stack.pop_back(); { InLib g; API_SUT.XML_ParserFree_(p); } r.enc_check();
  g_stats->evals++; g_stats->trace(r.T, 0); if (!r.T.inv.empty()) return invs(r.T);
  long l = g_alloc.live - b; return l ? "  library blocks still allocated after XML_ParserFree: " + std::to_string(l) + "\n" : "";
}
// --- cycles: a parser reset again and again holds no more than after the first few rounds
static str chk_cycles(const Case &c) {
  long b = g_alloc.live; XML_Parser p = make_parser(API_SUT, c, ""); if (!p) return ""; long held[3] = {0, 0, 0}; long b0 = g_alloc.bytes; int rounds = (int)c.p[0];
  for (int k = 0; k < rounds; k++) {
    Runner r(API_SUT, c);
    { r.quiet = true; r.stack.push_back({p, &c.docs[0]}); r.configure(p); r.feed(p, c.docs[0]); r.stack.pop_back(); g_stats->runs++; }
    { InLib g; if (!API_SUT.XML_ParserReset_(p, nullptr)) return "  XML_ParserReset failed\n"; }
    r.enc_check(); if (!r.T.inv.empty()) return invs(r.T);
    if (k == 3) held[0] = g_alloc.bytes - b0, held[1] = g_alloc.live - b; 
  }
  held[2] = g_alloc.bytes - b0; long lv = g_alloc.live - b; { InLib g; API_SUT.XML_ParserFree_(p); }
  g_stats->evals++; g_stats->nontrivial++; g_stats->seen(std::hash<str>()(c.docs[0].data)); g_stats->extra[6] += rounds;
  if (lv > held[1] + 2 || held[2] > held[0] + 4096) return "  after " + std::to_string(rounds) + " rounds the reset parser holds " + std::to_string(held[2]) + " bytes in " + std::to_string(lv) + " blocks, after 4 rounds " + std::to_string(held[0]) + " in " + std::to_string(held[1]) + "\n";
  if (g_alloc.live != b) return "  library blocks still allocated after XML_ParserFree: " + std::to_string(g_alloc.live - b) + "\n";
  return "";
}
__attribute__((constructor)) static void reg() {
  add("bound", [](Rng &r, uint64_t, Case &c) { gen_bound(r, c); }, chk_bound);
  add("free", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); if (r.chance(40)) c.handlers |= HB(H_DEFAULT); c.handlers |= HB(H_EXT); c.flags = F_NOCOUNT; GenOpt o; o.ns = c.ns; o.invalid = 10; o.longtok = 10; o.dtd = 80; o.ents = 50; gen_case(r, o, c); random_chunks(r, c); c.p = {(long)r.below((uint32_t)c.docs[0].data.size() + 1), (long)r.below(16)};
    if (r.chance(20)) for (auto &d : c.docs) { str t; if (transcode(d.data, r.pick({"UTF-16LE", "UTF-16BE", "UTF-8"}), t, true)) d.data = t; }
    if (r.chance(60)) for (int k = r.range(1, 4); k--;) { Act a; a.ev = r.below(30); a.kind = r.pick(std::vector<int>{A_STOP_RES, A_STOP_RES, A_STOP_FIN, A_UNSET, A_DEFCUR}); a.arg = r.below(H_N); c.acts.push_back(a); } }, chk_free);
  add("cycles", [](Rng &r, uint64_t, Case &c) { common_cfg(r, c); c.flags = F_NOCOUNT; c.handlers |= HB(H_EXT); GenOpt o; o.ns = c.ns; o.invalid = 15; o.dtd = 80; o.elems = 8; gen_case(r, o, c); random_chunks(r, c); c.p = {r.range(10, 40)}; if (r.chance(40)) { Act a; a.ev = r.below(20); a.kind = r.chance(50) ? A_STOP_RES : A_STOP_FIN; a.arg = 0; c.acts.push_back(a); } }, chk_cycles);
}
