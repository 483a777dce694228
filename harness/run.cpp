#include "run.h"
#include "rng.h"
#include <thread>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <algorithm>


static void u8put(std::string &o, uint32_t c) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
std::string xs(const XML_Char *s, int n) {
  if (!s) return "~";
  if (n < 0) { n = 0; while (s[n]) n++; }
  if (sizeof(XML_Char) == 1) return std::string((const char *)s, n);
  std::string o;
  for (int i = 0; i < n; i++) {
    uint32_t c = (uint16_t)s[i];
    if (c >= 0xD800 && c < 0xDC00 && i + 1 < n && ((uint16_t)s[i + 1] & 0xFC00) == 0xDC00) { c = 0x10000 + ((c - 0xD800) << 10) + ((uint16_t)s[i + 1] - 0xDC00); i++; }
    u8put(o, c);
  }
  return o;
}
std::string xe(const XML_Char *s, int n) {
  if (!s) return "~";
  std::string r = xs(s, n), o; bool need = false;
  for (unsigned char c : r) if (c < 0x20 || c == '\\' || c == '~' || c == 0x7f) { need = true; break; }
  if (!need) return r;
  char b[8];
  for (unsigned char c : r) { if (c < 0x20 || c == 0x7f) { snprintf(b, 8, "\\x%02x", c); o += b; } else if (c == '\\' || c == '~') { o += '\\'; o += (char)c; } else o += (char)c; }
  return o;
}
std::basic_string<XML_Char> xc(const std::string &s) {
  std::basic_string<XML_Char> o;
  if (sizeof(XML_Char) == 1) { for (char c : s) o += (XML_Char)c; return o; }
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i]; uint32_t u; int n;
    if (c < 0x80) { u = c; n = 1; } else if (c < 0xE0) { u = c & 31; n = 2; } else if (c < 0xF0) { u = c & 15; n = 3; } else { u = c & 7; n = 4; }
    for (int k = 1; k < n && i + k < s.size(); k++) u = u << 6 | (s[i + k] & 63);
    i += n;
    if (u >= 0x10000) { u -= 0x10000; o += (XML_Char)(0xD800 + (u >> 10)); o += (XML_Char)(0xDC00 + (u & 1023)); } else o += (XML_Char)u;
  }
  return o;
}

// ---------- unknown encodings offered by the harness ----------
// x-sb*  single-byte; x-mb2/3/4 multi-byte; x-bad*: maps a parser must refuse
#define UEOK(d) do { if (((UE *)(d))->magic != 0x5EED) { fprintf(stderr, "an encoding callback was given data that is not the one set\n"); abort(); } } while (0)
static int XMLCALL conv2(void *d, const char *s) { UEOK(d);  return 0x400 + ((unsigned char)s[0] & 0x3f) * 64 + ((unsigned char)s[1] & 0x3f); }
static int XMLCALL conv3(void *d, const char *s) { UEOK(d);  return 0x3000 + ((unsigned char)s[0] & 7) * 4096 / 8 + ((unsigned char)s[1] & 0x3f) * 8 + ((unsigned char)s[2] & 7); }
static int XMLCALL conv4(void *d, const char *s) { UEOK(d);  if ((unsigned char)s[0] >= 0xA0) return 0xE000 + ((unsigned char)s[0] & 31) * 64 + ((unsigned char)s[1] & 0x3f); return 0xFFFF & (0xE000 + ((unsigned char)s[1] & 15) * 256 + ((unsigned char)s[2] & 15) * 16 + ((unsigned char)s[3] & 15)); }
static int XMLCALL convneg(void *d, const char *s) { UEOK(d);  return ((unsigned char)s[1] & 1) ? -1 : 0xE9; }
static int XMLCALL convwild(void *d, const char *s) { UEOK(d);  static const int W[] = {-1, -2, 0, 1, 9, 0xA, 0x26, 0x3C, 0x41, 0x7F, 0x80, 0xB7, 0xE9, 0x16A, 0x7FF, 0x800, 0x3042, 0xD7FF, 0xD800, 0xDC00, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x110000, 0x7FFFFFFF}; unsigned h = (unsigned char)s[0] * 7; for (int i = 1; i < ((UE *)d)->len[(unsigned char)*s]; i++) h += (unsigned char)s[i]; return W[h % 29]; }
static void XMLCALL rel(void *d) { UEOK(d); ((UE *)d)->released++; }
static int unkenc_fill(const std::string &name, XML_Encoding *info) {
  if (name.compare(0, 2, "x-") != 0) return 0;
  for (int i = 0; i < 256; i++) info->map[i] = i < 0x80 ? i : -1;
  info->convert = nullptr; info->release = rel;
  if (name == "x-sb1") { for (int i = 0x80; i < 256; i++) info->map[i] = i; }
  else if (name == "x-sb2") { for (int i = 0x80; i < 256; i++) info->map[i] = 0x410 + (i - 0x80); }       // Cyrillic
  else if (name == "x-sb3") { for (int i = 0x80; i < 256; i++) info->map[i] = 0x4E00 + (i - 0x80) * 7; info->release = nullptr; }
  else if (name == "x-sb4") { for (int i = 0x80; i < 256; i++) info->map[i] = i & 1 ? -1 : 0x20 + i; }
  else if (name == "x-mb2") { for (int i = 0x80; i < 0xC0; i++) info->map[i] = -2; for (int i = 0xC0; i < 256; i++) info->map[i] = 0xC0 + (i - 0xC0); info->convert = conv2; }
  else if (name == "x-mb3") { for (int i = 0x80; i < 256; i++) info->map[i] = -3; info->convert = conv3; }
  else if (name == "x-mb4") { for (int i = 0x80; i < 0xA0; i++) info->map[i] = -4; for (int i = 0xA0; i < 0xC0; i++) info->map[i] = -2; info->convert = conv4; }
  else if (name == "x-neg") { for (int i = 0x80; i < 0x90; i++) info->map[i] = -2; info->convert = convneg; }
  else if (name == "x-bad1") { info->map[0x41] = 0x42; }
  else if (name == "x-bad2") { info->map[0x90] = -2; }                 // multi-byte without converter
  else if (name == "x-bad3") { info->map[0x90] = -5; info->convert = conv2; }
  else if (name == "x-bad4") { info->map[0x90] = 0x110000; }
  else if (name == "x-bad5") { info->map[0x90] = 0xD800; }
  else if (name == "x-bad6") { info->map[0x0A] = -1; }
  else if (name == "x-bad7") { info->map[0x90] = 0x0A; info->map[0x91] = 0xFFFE; info->map[0x92] = 0x41; }
  else if (name.compare(0, 3, "x-r") == 0) {   // x-rN: one of the above with a few entries changed to boundary values
    static const int V[] = {-1, -2, -3, -4, -5, -6, -7, -128, -300, 0, 9, 0xA, 0xD, 0x20, 0x26, 0x3C, 0x41, 0x5D, 0x7F, 0x80, 0x85, 0xB7, 0xE9, 0xFF, 0x100, 0x7FF, 0x800, 0x2028, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x10FFFF, 0x110000, 0x7FFFFFFF};
    Rng r(strtoull(name.c_str() + 3, nullptr, 10) + 77); static const char *const B[] = {"x-sb1", "x-sb2", "x-sb3", "x-sb4", "x-mb2", "x-mb3", "x-mb4", "x-neg", "x-sb1"};
    unkenc_fill(B[r.below(9)], info);
    for (int n = r.below(4); n-- > 0;) { int i = r.chance(75) ? r.range(128, 255) : r.range(0, 127); info->map[i] = r.chance(15) ? i : r.chance(20) ? r.range(0x80, 0xFFFF) : V[r.below(sizeof V / sizeof *V)]; }
    if (r.chance(12)) { int k = r.below(256); info->map[k] = V[r.below(8)]; }
    if (info->convert || r.chance(40)) info->convert = r.chance(40) ? conv2 : convwild;   // these look at two bytes only
    if (r.chance(10)) info->convert = nullptr;
  }
  else return 0;
  return 1;
}
int unknown_encoding(const std::string &name, XML_Encoding *info, UE *u) {
  int v = unkenc_fill(name, info); info->data = u; u->wants = info->release != nullptr; for (int i = 0; i < 256; i++) u->len[i] = info->map[i] < -1 && info->map[i] > -5 ? (signed char)-info->map[i] : 1;
  return v;
}
std::string enc_decode_table(const std::string &name, std::vector<int> &map) {
  XML_Encoding e; UE u; memset(&e, 0, sizeof e); map.clear();
  if (!unknown_encoding(name, &e, &u)) return "no";
  map.assign(e.map, e.map + 256); return "";
}

// ---------- logging ----------
static thread_local bool tl_some;   // F_POSSOME: lines and columns are asked for only at some of the byte indexes
static Pos getpos(const Api &A, XML_Parser p, bool always = false) {
  Pos r; InLib g;
  if (tl_some && !always) { r.idx = A.XML_GetCurrentByteIndex_(p); r.cnt = A.XML_GetCurrentByteCount_(p); if (((unsigned long)(r.idx + 3) * 2654435761u >> 13) % 5) return r; }
  r.line = A.XML_GetCurrentLineNumber_(p); r.col = A.XML_GetCurrentColumnNumber_(p);
  r.idx = A.XML_GetCurrentByteIndex_(p); r.cnt = A.XML_GetCurrentByteCount_(p);
  return r;
}
Event &Runner::log(char k, std::string text, bool mergeable) {
  T.counts[k]++; T.raw_events = rawEv + 1; if (quiet) return none;
  XML_Parser p = stack.empty() ? nullptr : stack.back().first;
  const std::string *doc = stack.empty() ? nullptr : &stack.back().second->data;
  if (mergeable && !(C.flags & F_RAW) && !T.ev.empty() && T.ev.back().k == k && T.ev.back().depth == depth && T.ev.back().doc == doc) {
    Event &e = T.ev.back(); size_t n = e.text.size(); auto u = [](const std::string &x, size_t i) { return (unsigned)(unsigned char)x[i]; };
    if (n >= 3 && u(e.text, n - 3) == 0xED && (u(e.text, n - 2) & 0xF0) == 0xA0 && text.size() >= 3 && u(text, 0) == 0xED && (u(text, 1) & 0xF0) == 0xB0) {   // a surrogate pair reported in two pieces
      unsigned hi = 0xD000 | (u(e.text, n - 2) & 63) << 6 | (u(e.text, n - 1) & 63), lo = 0xD000 | (u(text, 1) & 63) << 6 | (u(text, 2) & 63), c = 0x10000 + ((hi - 0xD800) << 10) + (lo - 0xDC00);
      char b[4] = {(char)(0xF0 | c >> 18), (char)(0x80 | (c >> 12 & 63)), (char)(0x80 | (c >> 6 & 63)), (char)(0x80 | (c & 63))}; e.text.resize(n - 3); e.text.append(b, 4); e.text.append(text, 3, std::string::npos);
    } else e.text += text;
    e.npieces++;
    if ((C.flags & F_POS) && p && hook) { Event tmp = e; tmp.text = text; tmp.pos = getpos(A, p); hook(*this, tmp); }
    return e;
  }
  Event e; e.k = k; e.text = std::move(text); e.depth = depth; e.doc = doc; e.raw = rawEv;
  if ((C.flags & F_POS) && p) e.pos = getpos(A, p);
  if ((C.flags & F_INCTX) && p && kept.empty()) {
    int off = -1, size = -1; const char *ctx; { InLib g; ctx = A.XML_GetInputContext_(p, &off, &size); }
    Pos q = getpos(A, p);
    if (ctx && off >= 0 && size >= off && q.idx >= off && doc && (size_t)(q.idx - off + size) <= doc->size()) {
      if (memcmp(ctx, doc->data() + (q.idx - off), size) != 0) T.inv.push_back("input context does not match the document at byte index " + std::to_string(q.idx));
    } else if (ctx && (off < 0 || size < off || (doc && (size_t)(q.idx - off + size) > doc->size())))
      T.inv.push_back("input context out of range: off " + std::to_string(off) + " size " + std::to_string(size) + " idx " + std::to_string(q.idx));
    e.internal = ctx == nullptr;
  }
  T.ev.push_back(std::move(e));
  if (hook) hook(*this, T.ev.back());
  return T.ev.back();
}
void Runner::api(const char *what, long v) { log('A', std::string(what) + "=" + std::to_string(v)); }
std::string Trace::render(uint32_t f) const {
  std::string o; char b[96];
  for (auto &e : ev) {
    o += std::string(e.depth, ' '); o += e.k; o += ' ';
    o += (e.k == 'T' || e.k == 'D') ? esc(e.text) : e.text;
    if ((f & F_POS) && e.k != 'A') { if ((f & F_NOCOUNT) || ((e.k == 'T' || e.k == 'D') && !(f & F_RAW))) snprintf(b, 96, " @%lu:%lu:%ld", e.pos.line, e.pos.col, e.pos.idx); else snprintf(b, 96, " @%lu:%lu:%ld+%d", e.pos.line, e.pos.col, e.pos.idx, e.pos.cnt); o += b; }
    o += '\n';
  }
  return o;
}
static uint64_t fnv(uint64_t h, const char *p, size_t n) { for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h; }
uint64_t Trace::hash(uint32_t f) const { std::string r = render(f); return fnv(14695981039346656037ull, r.data(), r.size()); }
void Trace::count(std::map<std::string, long> &m) const { for (auto &c : counts) m[std::string(1, c.first)] += c.second; }

// ---------- callbacks ----------
static Runner *R(void *ud);
static thread_local Runner *tl_runner;
static Runner *R(void *) { return tl_runner; }
static void after(Runner *r) {
  uint32_t n = r->rawEv++;
  if (r->stack.empty()) return;
  XML_Parser p = r->stack.back().first; const Api &A = r->A;
  if (n >= r->maxEvents) { r->T.overflow = true; r->stopAll = true; InLib g; A.XML_StopParser_(p, XML_FALSE); return; }
  for (auto &a : r->C.acts) if (a.ev == n) {
    long v = 0; std::string nm;
    switch (a.kind) {
      case A_STOP_RES: { InLib g; v = A.XML_StopParser_(p, XML_TRUE); } r->api("stop1", v); break;
      case A_STOP_FIN: { InLib g; v = A.XML_StopParser_(p, XML_FALSE); } r->api("stop0", v); break;
      case A_STOP_TWICE: { InLib g; v = A.XML_StopParser_(p, XML_TRUE); v = v * 10 + A.XML_StopParser_(p, XML_TRUE); v = v * 100 + A.XML_GetErrorCode_(p); } r->api("stop11", v); break;
      case A_DEFCUR: if (a.arg && !r->T.ev.empty() && r->T.ev.back().k == 'D') break; r->log('c', "defcur"); { InLib g; A.XML_DefaultCurrent_(p); } break;
      case A_UNSET: r->handlers &= ~HB(a.arg); r->install(p, r->handlers, HB(a.arg)); r->api("unset", a.arg); break;
      case A_SET: r->handlers |= HB(a.arg); r->install(p, r->handlers, HB(a.arg)); r->api("set", a.arg); break;
      case A_POS: { Pos q = getpos(A, p, true); char b[80]; snprintf(b, 80, "%lu:%lu:%ld", q.line, q.col, q.idx); r->log('p', b); } break;
      case A_SETENC: { auto e = xc("UTF-8"); InLib g; v = A.XML_SetEncoding_(p, e.c_str()); } r->api("setenc", v); break;
      case A_SETBASE: { auto e = xc("base" + std::to_string(a.arg)); InLib g; v = A.XML_SetBase_(p, e.c_str()); } r->api("setbase", v); break;
      case A_PEPARSING: { InLib g; v = A.XML_SetParamEntityParsing_(p, (XML_ParamEntityParsing)a.arg); } r->api("peparsing", v); break;
      case A_FOREIGN: { InLib g; v = A.XML_UseForeignDTD_(p, XML_TRUE); } r->api("foreign", v); break;
      case A_STATUS: { XML_ParsingStatus st; memset(&st, 0, sizeof st); { InLib g; A.XML_GetParsingStatus_(p, &st); } r->api("status", st.parsing * 10 + st.finalBuffer); } break;
    }
  }
}
#define CB OutLib _ol; Runner *r = R(ud); (void)ud
#define ARGCHK do { if (r->C.flags & F_PARSERARG) { if (ud != (void *)(r->stack.empty() ? nullptr : r->stack.back().first)) r->T.inv.push_back("handler argument is not the parser"); } else if (ud != (void *)r) r->T.inv.push_back("handler argument is not the user data"); } while (0)
static void XMLCALL cb_start(void *ud, const XML_Char *name, const XML_Char **atts) {
  CB; ARGCHK; std::string s = xe(name); XML_Parser p = r->stack.back().first; int n = 0;
  int spec, id; { InLib g; spec = r->A.XML_GetSpecifiedAttributeCount_(p); id = r->A.XML_GetIdAttributeIndex_(p); }
  for (; atts[n]; n += 2) { s += ' '; s += xe(atts[n]); s += "=\""; { std::string v = xe(atts[n + 1]); for (size_t q = 0; (q = v.find('"', q)) != std::string::npos; q += 3) v.replace(q, 1, "\\x22"); s += v; } s += '"'; if (n > 20000) { r->T.inv.push_back("attribute array not terminated"); break; } }
  s += " #" + std::to_string(spec) + "," + std::to_string(id);
  if (spec > n || spec < 0 || (spec & 1)) r->T.inv.push_back("specified attribute count out of range");
  if (id >= n || (id >= 0 && (id & 1))) r->T.inv.push_back("id attribute index out of range");
  r->log('S', s); after(r);
}
static void XMLCALL cb_end(void *ud, const XML_Char *name) { CB; ARGCHK; r->log('E', xe(name)); after(r); }
static void XMLCALL cb_chars(void *ud, const XML_Char *s, int n) { CB; ARGCHK; if (n <= 0) r->T.inv.push_back("character data length <= 0"); r->log('T', xs(s, n), true); after(r); }
static void XMLCALL cb_pi(void *ud, const XML_Char *t, const XML_Char *d) { CB; ARGCHK; r->log('P', xe(t) + " " + xe(d)); after(r); }
static void XMLCALL cb_comment(void *ud, const XML_Char *d) { CB; ARGCHK; r->log('C', xe(d)); after(r); }
static void XMLCALL cb_scdata(void *ud) { CB; ARGCHK; r->log('[', ""); after(r); }
static void XMLCALL cb_ecdata(void *ud) { CB; ARGCHK; r->log(']', ""); after(r); }
static void XMLCALL cb_default(void *ud, const XML_Char *s, int n) { CB; ARGCHK; if (n <= 0) { if (n < 0 && !r->A.ref) r->T.inv.push_back("default data length < 0"); return; } r->log('D', xs(s, n), true); after(r); }
static void XMLCALL cb_sdoctype(void *ud, const XML_Char *n, const XML_Char *s, const XML_Char *p, int i) { CB; ARGCHK; r->log('Y', xe(n) + " sys=" + xe(s) + " pub=" + xe(p) + " int=" + std::to_string(i)); after(r); }
static void XMLCALL cb_edoctype(void *ud) { CB; ARGCHK; r->log('y', ""); after(r); }
static void model(std::string &o, const XML_Content *m, int d) {
  if (d > 3000) { o += "..."; return; }
  static const char *q[] = {"", "?", "*", "+"};
  o += std::to_string(m->type); o += (unsigned)m->quant < 4 ? q[m->quant] : "BADQUANT";
  if (m->name) { o += ':'; o += xe(m->name); }
  if (m->numchildren) { o += '('; for (unsigned i = 0; i < m->numchildren; i++) { if (i) o += ' '; model(o, &m->children[i], d + 1); } o += ')'; }
  if (m->type == XML_CTYPE_NAME ? (m->numchildren != 0 || m->children != nullptr) : false) o += "!badname";
}
static void XMLCALL cb_elemdecl(void *ud, const XML_Char *n, XML_Content *m) {
  CB; ARGCHK; std::string s = xe(n) + " "; model(s, m, 0); r->log('L', s);
  { InLib g; r->A.XML_FreeContentModel_(r->stack.back().first, m); } after(r);
}
static void XMLCALL cb_attdecl(void *ud, const XML_Char *e, const XML_Char *a, const XML_Char *t, const XML_Char *d, int req) { CB; ARGCHK; r->log('a', xe(e) + " " + xe(a) + " " + xe(t) + " def=" + xe(d) + " req=" + std::to_string(req)); after(r); }
static void XMLCALL cb_entdecl(void *ud, const XML_Char *n, int pe, const XML_Char *v, int vl, const XML_Char *b, const XML_Char *s, const XML_Char *p, const XML_Char *no) {
  CB; ARGCHK; r->log('N', xe(n) + " pe=" + std::to_string(pe) + " val=" + (v ? xe(v, vl) : "~") + " base=" + xe(b) + " sys=" + xe(s) + " pub=" + xe(p) + " not=" + xe(no)); after(r);
}
static void XMLCALL cb_xmldecl(void *ud, const XML_Char *v, const XML_Char *e, int sa) { CB; ARGCHK; r->log('X', "ver=" + xe(v) + " enc=" + xe(e) + " sa=" + std::to_string(sa)); after(r); }
static void XMLCALL cb_unparsed(void *ud, const XML_Char *n, const XML_Char *b, const XML_Char *s, const XML_Char *p, const XML_Char *no) { CB; ARGCHK; r->log('U', xe(n) + " base=" + xe(b) + " sys=" + xe(s) + " pub=" + xe(p) + " not=" + xe(no)); after(r); }
static void XMLCALL cb_notation(void *ud, const XML_Char *n, const XML_Char *b, const XML_Char *s, const XML_Char *p) { CB; ARGCHK; r->log('O', xe(n) + " base=" + xe(b) + " sys=" + xe(s) + " pub=" + xe(p)); after(r); }
static void XMLCALL cb_sns(void *ud, const XML_Char *p, const XML_Char *u) { CB; ARGCHK; r->log('{', xe(p) + " " + xe(u)); after(r); }
static void XMLCALL cb_ens(void *ud, const XML_Char *p) { CB; ARGCHK; r->log('}', xe(p)); after(r); }
static int XMLCALL cb_notsa(void *ud) { CB; ARGCHK; r->log('s', ""); after(r); return r->C.flags & F_NOTSA0 ? 0 : 1; }
static void XMLCALL cb_skipped(void *ud, const XML_Char *n, int pe) { CB; ARGCHK; r->log('K', xe(n) + " pe=" + std::to_string(pe)); after(r); }
static int XMLCALL cb_unkenc(void *ud, const XML_Char *n, XML_Encoding *info) {
  OutLib _ol; Runner *r = tl_runner; (void)ud; std::string nm = xs(n);
  UE *ue = new UE; r->encs.push_back(ue); int v = unknown_encoding(nm, info, ue);
  r->log('u', xe(n) + " ret=" + std::to_string(v)); after(r); return v;
}
static std::string sorted_ctx(const XML_Char *c) {
  if (!c) return "~";
  std::string s = xs(c); std::vector<std::string> v; size_t i = 0;
  while (i <= s.size()) { size_t j = s.find('\f', i); if (j == std::string::npos) j = s.size(); v.push_back(s.substr(i, j - i)); i = j + 1; }
  std::sort(v.begin(), v.end()); std::string o; for (auto &x : v) { if (!o.empty()) o += '&'; o += esc(x); } return o;
}
static int XMLCALL cb_ext(XML_Parser arg, const XML_Char *ctx, const XML_Char *base, const XML_Char *sys, const XML_Char *pub) {
  OutLib _ol; Runner *r = tl_runner; XML_Parser p = r->stack.back().first;
  if (r->C.flags & F_EXTARG) { if ((void *)arg != (void *)r) r->T.inv.push_back("external entity handler argument is not the value set"); }
  else if (arg != p) r->T.inv.push_back("external entity handler argument is not the parser");
  r->log('X' + 2 /* 'Z' */, "ctx=" + (r->C.flags & F_CTX ? sorted_ctx(ctx) : std::string(ctx ? "y" : "~")) + " base=" + xe(base) + " sys=" + xe(sys) + " pub=" + xe(pub));
  after(r);
  std::string sid = sys ? xs(sys) : "";
  const Doc *d = nullptr;
  for (size_t i = 1; i < r->C.docs.size(); i++) if (r->C.docs[i].sysid == sid) { d = &r->C.docs[i]; break; }
  if (!d) return 1;
  if (d->behave == 1) return 0;
  if (d->behave == 2 || r->depth >= 6 || r->stopAll) return 1;
  auto enc = xc(d->enc);
  XML_Parser c; { InLib g; c = r->A.XML_ExternalEntityParserCreate_(p, ctx, d->enc.empty() ? nullptr : enc.c_str()); }
  if (!c) { r->log('z', "nochild"); return 0; }
  if (r->C.flags & F_PARSERARG) { InLib g; r->A.XML_UseParserAsHandlerArg_(c); }
  // an application that resolves identifiers gives each entity its own base
  if (r->C.base[0] == '@') { auto b = xc("@" + sid); int st; const XML_Char *was; { InLib g; was = r->A.XML_GetBase_(c); st = r->A.XML_SetBase_(c, b.c_str()); } if (was || st != XML_STATUS_OK) r->log('B', "entity base " + xe(was) + " set " + std::to_string(st)); }
  if (r->childHook && ctx) return r->childHook(*r, c, d);
  r->depth++; r->stack.push_back({c, d});
  Doc part; const Doc *fd = d;
  if (d->behave == 5 || d->behave == 7) { part = *d; part.data.resize(part.data.size() - part.data.size() / 3); fd = &part; }
  int ok = r->feed(c, *fd, d->behave == 5 || d->behave == 7);
  if (d->behave == 6) { XML_Bool done; { InLib g; done = r->A.XML_ParserReset_(c, nullptr); } if (done) r->T.inv.push_back("an external entity's parser let itself be reset"); }
  r->stack.pop_back(); r->depth--;
  if (d->behave == 7) { r->kept.push_back({c, d}); return 1; }
  { InLib g; r->A.XML_ParserFree_(c); }
  return d->behave == 3 ? 0 : d->behave >= 4 ? 1 : ok;
}

void Runner::install(XML_Parser p, uint32_t m, uint32_t w) {
  InLib g;
#define IF(b, call) if (w & HB(b)) A.call
  if ((w & HB(H_START)) && (w & HB(H_END))) A.XML_SetElementHandler_(p, m & HB(H_START) ? cb_start : nullptr, m & HB(H_END) ? cb_end : nullptr);
  else { IF(H_START, XML_SetStartElementHandler_(p, m & HB(H_START) ? cb_start : nullptr)); IF(H_END, XML_SetEndElementHandler_(p, m & HB(H_END) ? cb_end : nullptr)); }
  IF(H_CHARS, XML_SetCharacterDataHandler_(p, m & HB(H_CHARS) ? cb_chars : nullptr));
  IF(H_PI, XML_SetProcessingInstructionHandler_(p, m & HB(H_PI) ? cb_pi : nullptr));
  IF(H_COMMENT, XML_SetCommentHandler_(p, m & HB(H_COMMENT) ? cb_comment : nullptr));
  if ((w & HB(H_SCDATA)) && (w & HB(H_ECDATA))) A.XML_SetCdataSectionHandler_(p, m & HB(H_SCDATA) ? cb_scdata : nullptr, m & HB(H_ECDATA) ? cb_ecdata : nullptr);
  else { IF(H_SCDATA, XML_SetStartCdataSectionHandler_(p, m & HB(H_SCDATA) ? cb_scdata : nullptr)); IF(H_ECDATA, XML_SetEndCdataSectionHandler_(p, m & HB(H_ECDATA) ? cb_ecdata : nullptr)); }
  if (w & (HB(H_DEFAULT) | HB(H_DEFEXPAND))) {
    if (w == ~0u && !(m & (HB(H_DEFAULT) | HB(H_DEFEXPAND)))) {}   // never set: keeps the initial state
    else if (m & HB(H_DEFEXPAND)) A.XML_SetDefaultHandlerExpand_(p, m & HB(H_DEFAULT) ? cb_default : nullptr);
    else A.XML_SetDefaultHandler_(p, m & HB(H_DEFAULT) ? cb_default : nullptr);
  }
  if ((w & HB(H_SDOCTYPE)) && (w & HB(H_EDOCTYPE))) A.XML_SetDoctypeDeclHandler_(p, m & HB(H_SDOCTYPE) ? cb_sdoctype : nullptr, m & HB(H_EDOCTYPE) ? cb_edoctype : nullptr);
  else { IF(H_SDOCTYPE, XML_SetStartDoctypeDeclHandler_(p, m & HB(H_SDOCTYPE) ? cb_sdoctype : nullptr)); IF(H_EDOCTYPE, XML_SetEndDoctypeDeclHandler_(p, m & HB(H_EDOCTYPE) ? cb_edoctype : nullptr)); }
  IF(H_ELEMDECL, XML_SetElementDeclHandler_(p, m & HB(H_ELEMDECL) ? cb_elemdecl : nullptr));
  IF(H_ATTDECL, XML_SetAttlistDeclHandler_(p, m & HB(H_ATTDECL) ? cb_attdecl : nullptr));
  IF(H_ENTDECL, XML_SetEntityDeclHandler_(p, m & HB(H_ENTDECL) ? cb_entdecl : nullptr));
  IF(H_XMLDECL, XML_SetXmlDeclHandler_(p, m & HB(H_XMLDECL) ? cb_xmldecl : nullptr));
  IF(H_UNPARSED, XML_SetUnparsedEntityDeclHandler_(p, m & HB(H_UNPARSED) ? cb_unparsed : nullptr));
  IF(H_NOTATION, XML_SetNotationDeclHandler_(p, m & HB(H_NOTATION) ? cb_notation : nullptr));
  if ((w & HB(H_SNS)) && (w & HB(H_ENS))) A.XML_SetNamespaceDeclHandler_(p, m & HB(H_SNS) ? cb_sns : nullptr, m & HB(H_ENS) ? cb_ens : nullptr);
  else { IF(H_SNS, XML_SetStartNamespaceDeclHandler_(p, m & HB(H_SNS) ? cb_sns : nullptr)); IF(H_ENS, XML_SetEndNamespaceDeclHandler_(p, m & HB(H_ENS) ? cb_ens : nullptr)); }
  IF(H_NOTSTANDALONE, XML_SetNotStandaloneHandler_(p, m & HB(H_NOTSTANDALONE) ? cb_notsa : nullptr));
  IF(H_EXT, XML_SetExternalEntityRefHandler_(p, m & HB(H_EXT) ? cb_ext : nullptr));
  IF(H_SKIPPED, XML_SetSkippedEntityHandler_(p, m & HB(H_SKIPPED) ? cb_skipped : nullptr));
  IF(H_UNKENC, XML_SetUnknownEncodingHandler_(p, m & HB(H_UNKENC) ? cb_unkenc : nullptr, this));
}
XML_Parser make_parser(const Api &A, const Case &C, const std::string &encs) {
  XML_Parser p; auto enc = xc(encs); const XML_Char *e = encs.empty() ? nullptr : enc.c_str(); auto sep = xc(C.sep.empty() ? std::string(1, '\0') : C.sep);
  InLib g;
  if (C.ns == 1) p = A.XML_ParserCreateNS_(e, sep[0]);
  else if (C.ns == 2) p = A.XML_ParserCreate_MM_(e, nullptr, sep.c_str());
  else if (C.ns == 3) p = A.XML_ParserCreate_MM_(e, nullptr, nullptr);
  else p = A.XML_ParserCreate_(e);
  if (p && A.ref) {
    ref_XML_SetReparseDeferralEnabled(p, XML_FALSE);
    ref_XML_SetBillionLaughsAttackProtectionMaximumAmplification(p, 1e30f);
  }
  return p;
}
void Runner::configure(XML_Parser p) {
  tl_runner = this; tl_some = C.flags & F_POSSOME;
  { InLib g;
    A.XML_SetUserData_(p, this);
    if (C.flags & F_PARSERARG) A.XML_UseParserAsHandlerArg_(p);
    if (C.flags & F_EXTARG) A.XML_SetExternalEntityRefHandlerArg_(p, this);
    if (C.salt) A.XML_SetHashSalt_(p, (unsigned long)C.salt);
    if (C.trip) A.XML_SetReturnNSTriplet_(p, C.trip);
    A.XML_SetParamEntityParsing_(p, (XML_ParamEntityParsing)C.pe);
    if (C.foreign) A.XML_UseForeignDTD_(p, XML_TRUE);
    if (!C.base.empty()) { auto b = xc(C.base); if (A.XML_SetBase_(p, b.c_str()) == XML_STATUS_ERROR) { OutLib o; log('B', "XML_SetBase err=1"); } }
    if (!(C.flags & F_CTORENC) && !C.docs[0].enc.empty()) { auto b = xc(C.docs[0].enc); if (A.XML_SetEncoding_(p, b.c_str()) == XML_STATUS_ERROR) { OutLib o; log('B', "XML_SetEncoding err=1"); } }
  }
  install(p, handlers);
}
int Runner::feed(XML_Parser p, const Doc &d, bool part) {
  tl_runner = this; tl_some = C.flags & F_POSSOME;
  size_t pos = 0, ci = 0; int st = 1; bool fin = false; int npiece = 0;
  while (!fin) {
    size_t n; bool last;
    if (ci < d.chunks.size()) { n = std::min<size_t>((size_t)std::max(0, d.chunks[ci]), d.data.size() - pos); ci++; }
    else n = d.data.size() - pos;
    last = ci >= d.chunks.size() && pos + n == d.data.size();
    if (last && (d.mode & 4) && n > 0) last = false;     // an extra empty final call follows
    if ((C.flags & F_LATE) && !depth) for (size_t i = 0; i + 2 < C.p.size(); i += 3) if (C.p[i] == npiece) { uint32_t h = HB(C.p[i + 2] % H_N); if (C.p[i + 1]) handlers |= h; else handlers &= ~h; install(p, handlers, h); }
    bool buf = (d.mode & 1) || ((d.mode & 2) && (npiece & 1));
    npiece++;
    // an empty first piece of an external entity makes the reference model call through an
    // uninitialised encoding table; rexpat is checked on it where no reference is involved
    if (depth > 0 && pos == 0 && n == 0 && !last && !(C.flags & F_ZEROOK)) continue;
    char *copy = nullptr; XML_Status s;
    if (buf) {
      void *b; int want = (int)n + ((d.mode & 8) ? 37 + (int)n : 0);
      { InLib g; b = A.XML_GetBuffer_(p, want ? want : ((d.mode & 16) ? 0 : 1)); }
      if (!b) { log('B', "getbuffer null err=" + std::to_string(A.XML_GetErrorCode_(p))); s = XML_STATUS_ERROR; st = 0; break; }
      else { if (n) memcpy(b, d.data.data() + pos, n); InLib g; s = A.XML_ParseBuffer_(p, (int)n, last && !part); }
    } else {
      copy = (char *)malloc(n ? n : 1); if (n) memcpy(copy, d.data.data() + pos, n);
      if ((C.flags & F_MIGRATE) && !depth && (npiece % 3)) std::thread([&] { tl_runner = this; tl_some = C.flags & F_POSSOME; InLib g; s = A.XML_Parse_(p, copy, (int)n, last && !part); }).join();
      else { InLib g; s = A.XML_Parse_(p, copy, (int)n, last && !part); }
    }
    pos += n; fin = last;
    int guard = 0;
    while (s == XML_STATUS_SUSPENDED) {
      nSusp++;
      XML_ParsingStatus ps; memset(&ps, 0, sizeof ps); { InLib g; A.XML_GetParsingStatus_(p, &ps); }
      if (ps.parsing != XML_SUSPENDED) T.inv.push_back("status SUSPENDED returned but parsing status is " + std::to_string(ps.parsing));
      log('R', "suspended").pos = Pos(); // where a suspended parser stands is unspecified after an entity
      if (copy) { memset(copy, '#', n ? n : 1); free(copy); copy = nullptr; }   // the data passed belongs to the caller again
      if (++guard > 5000) { T.inv.push_back("suspend loop"); break; }
      InLib g; s = A.XML_ResumeParser_(p);
    }
    if (s == XML_STATUS_ERROR) {
      st = 0; int e; { InLib g; e = A.XML_GetErrorCode_(p); }
      Event &x = log('!', "err=" + std::to_string(e)); if (!(C.flags & F_POS)) x.pos = getpos(A, p);
      if (depth == 0) T.err = e;
      if (copy) free(copy);
      break;
    }
    if (C.flags & F_FEEDLOG) { XML_ParsingStatus ps; memset(&ps, 0, sizeof ps); { InLib g; A.XML_GetParsingStatus_(p, &ps); } log('F', "st=" + std::to_string(s) + " ps=" + std::to_string(ps.parsing) + std::to_string((int)ps.finalBuffer)).pos = Pos(); }
    else if (fin) { int e; { InLib g; e = A.XML_GetErrorCode_(p); } if (depth == 0) T.err = e; log('.', "ok"); }
    if (copy) { memset(copy, '#', n ? n : 1); free(copy); }
  }
  if (depth == 0) T.status = st;
  return st;
}
// every encoding taken from the application has been given back exactly once
void Runner::enc_check() {
  for (UE *u : encs) if (u->released != (u->wants ? 1 : 0)) T.inv.push_back("the release function of an unknown encoding was called " + std::to_string(u->released) + " times"); else { u->magic = 0; delete u; }
  encs.clear();
}
Trace &Runner::run() {
  long base_live = g_alloc.live; g_alloc.bytes = 0; g_alloc.peak = 0; long c0 = g_alloc.count;
  XML_Parser p = make_parser(A, C, (C.flags & F_CTORENC) ? C.docs[0].enc : "");
  if (!p) { T.created = false; T.leak = g_alloc.live - base_live; return T; }
  root = p;
  stack.push_back({p, &C.docs[0]});
  configure(p);
  feed(p, C.docs[0]);
  stack.pop_back();
  if (!kept.empty()) { stopAll = true; // the parsers the entity handler kept: finished before or after their parent is reset, or just freed
    auto end = [&](size_t i) { Doc rest = *kept[i].second; rest.data.erase(0, rest.data.size() - rest.data.size() / 3); depth = 1; stack.push_back({kept[i].first, kept[i].second}); feed(kept[i].first, rest); stack.pop_back(); depth = 0; };
    for (size_t i = 0; i < kept.size(); i++) if ((i + C.docs.size()) % 3 == 0) end(i);
    if ((C.docs[0].data.size() % 4)) { XML_Bool ok; { InLib g; ok = A.XML_ParserReset_(p, nullptr); } if (!ok && !g_alloc.failed) T.inv.push_back("XML_ParserReset refused on a parser with entity parsers"); }
    for (size_t i = 0; i < kept.size(); i++) { if ((i + C.docs.size()) % 3 == 1) end(i); InLib g; A.XML_ParserFree_(kept[i].first); }
    kept.clear();
    if (C.docs[0].data.size() % 2) { stack.push_back({p, &C.docs[0]}); feed(p, C.docs[0]); stack.pop_back(); }
  }
  { InLib g; A.XML_ParserFree_(p); }
  if (!childHook) enc_check();
  T.leak = g_alloc.live - base_live; T.peak = g_alloc.peak; T.allocs = g_alloc.count - c0;
  T.raw_events = rawEv;
  return T;
}
void run_child(Runner &r, XML_Parser c, const Doc *d, int depth) {
  Runner *was = tl_runner; r.depth = depth; r.stack.push_back({c, d}); tl_runner = &r;
  { InLib g; r.A.XML_SetUserData_(c, &r); if (r.C.flags & F_PARSERARG) r.A.XML_UseParserAsHandlerArg_(c); if (r.C.flags & F_EXTARG) r.A.XML_SetExternalEntityRefHandlerArg_(c, &r); r.install(c, r.handlers, HB(H_UNKENC)); }
  r.feed(c, *d); r.stack.pop_back(); { InLib g; r.A.XML_ParserFree_(c); } tl_runner = was;
}
Trace run_case(const Api &a, const Case &c) { Runner r(a, c); return std::move(r.run()); }
