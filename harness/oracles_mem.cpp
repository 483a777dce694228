// C01/C20: hostile workloads on rexpat alone; the sanitizer, the debug assertions and the allocation ledger are the oracle.
#include "oracles.h"
#include <cstring>
static std::string chk_mem(const Case &c) {
  Trace t = run_case(API_SUT, c); g_stats->evals++; g_stats->trace(t, c.flags); g_stats->suspensions += t.counts['R'];
  std::string r; for (auto &s : t.inv) r += "  invariant: " + s + "\n";
  if (t.leak) r += "  library blocks still allocated after XML_ParserFree: " + std::to_string(t.leak) + "\n";
  return r;
}
static const char *const ENC[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "UTF-16", "ISO-8859-1", "US-ASCII", "x-sb1", "x-sb2", "x-sb3", "x-sb4", "x-mb2", "x-mb3", "x-mb4", "x-neg", "x-bad1", "x-bad2", "x-bad3", "x-bad4", "x-bad5", "x-bad6", "x-bad7", "bogus"};
static const char SPECIAL[] = "<>&;%![]()/'\"= \r\n\t-?|*+,#x:";
static const char *const MB[] = {"\xc3\xa9", "\xf0\x9f\x98\x80", "\n", "&amp;"};
static const int KINDS[] = {A_UNSET, A_UNSET, A_SET, A_STOP_RES, A_STOP_FIN, A_DEFCUR};
static void hostile(Rng &r, Case &c) {
  common_cfg(r, c); c.flags |= F_ZEROOK; c.flags ^= r.chance(50) ? F_POS : 0; c.flags |= r.chance(50) ? F_INCTX : 0; c.flags |= r.chance(20) ? F_PARSERARG : 0; c.flags |= r.chance(20) ? F_EXTARG : 0; c.flags |= r.chance(30) ? F_CTORENC : 0; c.flags |= r.chance(10) ? F_NOTSA0 : 0;
  if (r.chance(5)) c.salt = r.next();
  int k = r.below(10);
  if (r.chance(8)) { // declarations cut anywhere, across external parameter entities whose failure the application may ignore
    Doc d; d.data = "<!DOCTYPE r SYSTEM 'd'><r><x a=''/>&g;</r>"; c.docs.push_back(d); c.pe = 2; c.handlers |= HB(H_EXT) | HB(H_ELEMDECL) | HB(H_ATTDECL) | HB(H_ENTDECL);
    static const char *const T[] = {"<!ELEMENT x ", "<!ELEMENT y (a,(b|c)*,d)+>", "(", "(", "(", ")", ")", ")*", "|", ",", "a", "b?", "#PCDATA", ">", ">", "EMPTY", "ANY", "<!ATTLIST x a ", "CDATA ", "(u|v) ", "NOTATION (n) ", "'v'", "'p&w;'", "#IMPLIED", "#FIXED ", "<!ENTITY g ", "'t%e;u'", "'&#60;z>'", "'%f;'", "SYSTEM 's'", "PUBLIC 'p' ", " NDATA n", "<!ENTITY % i ", "%e;", "%e;", " %f;", "%i;", " ", "<![INCLUDE[", "<![IGNORE[", "]]>", "<!-- -->", "<!NOTATION n ", "<?p q?>"};
    auto toks = [&](int n) { std::string o; while (n--) { o += T[r.below(sizeof T / sizeof *T)]; if (r.chance(20)) o += ' '; } return o; };
    auto wf = [&]() { static const char *const W[] = {"<!ELEMENT x (a,(b|%e;c)*,%f; d)>", "<!ELEMENT x %e; >", "<!ELEMENT x (%f;|b)>", "<!ELEMENT x (#PCDATA %e;|b)*>", "<!ATTLIST x a %e; 'v'>", "<!ATTLIST x a (u|%e; v) 'u' b CDATA 'w'>", "<!ENTITY g %e; 'v'>", "<!ENTITY g 't%e;u'>", "<!NOTATION n %e; PUBLIC 'p' 's'>", "%e;", "<![%e;[<!ELEMENT q ANY>]]>"}; std::string o; for (int n = r.range(1, 4); n--;) { std::string w = W[r.below(sizeof W / sizeof *W)]; if (r.chance(25)) w.resize(r.below(w.size()) + 1); o += w; } return o; };
    Doc e; e.sysid = "d"; e.data = "<!ENTITY % e SYSTEM 'e'><!ENTITY % f SYSTEM 'f'>" + (r.chance(60) ? wf() : toks(r.range(1, 12))); c.docs.push_back(e);
    for (const char *n : {"e", "f"}) { Doc x; x.sysid = n; x.data = r.chance(40) ? wf() : toks(r.range(0, 7)); c.docs.push_back(x); }
    for (size_t i = 1; i < c.docs.size(); i++) { if (r.chance(60)) c.docs[i].behave = r.range(3, 7); }
    random_chunks(r, c); for (int n = r.below(3); n--;) { Act a; a.ev = r.below(20); a.kind = r.below(A_NKINDS); a.arg = a.kind == A_PEPARSING ? r.below(4) - 1 : r.below(H_N); c.acts.push_back(a); }
    return; }
  if (k < 2) { Doc d; d.data = soup(r, r.range(1, 30), -1); c.docs.push_back(d); }
  else if (k < 3) { Doc d; int n = r.range(0, 40); while (n--) d.data += (char)(r.chance(50) ? r.below(256) : (uint32_t)SPECIAL[r.below(sizeof SPECIAL - 1)]); c.docs.push_back(d); }
  else { GenOpt o; o.ns = c.ns; o.invalid = 60; o.longtok = r.chance(30) ? 20 : 3; o.multibyte = r.chance(30) ? 60 : 15; o.ents = r.chance(30) ? 70 : 25; o.pe = r.chance(30) ? 70 : 25; o.ext = r.chance(30) ? 60 : 30; o.recursive = 6; o.undeclared = 6; gen_case(r, o, c); }
  for (auto &d : c.docs) {
    if (r.chance(30)) { std::string e = r.pick(ENC), o; if (transcode(d.data, e, o, r.chance(60))) { d.data = o; if (r.chance(60)) d.enc = e; } }
    else if (r.chance(8)) d.enc = r.pick(ENC);
    if (r.chance(25)) mutate(r, d.data, r.range(1, 4));
    if (r.chance(25)) d.behave = r.range(3, 7);
  }
  random_chunks(r, c); for (auto &d : c.docs) if (r.chance(50)) d.mode = r.below(32);
  if (r.chance(50)) { c.handlers = (uint32_t)r.next() & H_ALL; if (r.chance(70)) c.handlers |= HB(H_EXT) | HB(H_UNKENC); }
  if (r.chance(6)) { // a token that does not fit the conversion buffer, while handlers come and go
    std::string t(r.range(900, 4000), 'x'); for (int i = r.range(0, 9); i--;) t.insert(r.below(t.size()), r.pick(MB)); Doc d; int w = r.below(5); d.data = w == 0 ? "<!--" + t + "--><r/>" : w == 1 ? "<r>" + t + "</r>" : w == 2 ? "<r><![CDATA[" + t + "]]></r>" : w == 3 ? "<r a='" + t + "'>" + t + "</r>" : "<!DOCTYPE r [<!ENTITY e '" + t + "'>]><r>&e;</r>";
    std::string e = r.pick(ENC), o; if (transcode(d.data, e, o, r.chance(60))) { d.data = o; d.enc = e; } c.docs.clear(); c.docs.push_back(d); c.acts.clear(); if (r.chance(80)) c.handlers |= HB(H_DEFAULT);
    for (int n = r.range(1, 4); n--;) { Act a; a.ev = r.below(9); a.kind = KINDS[r.below(6)]; a.arg = r.chance(50) ? (int)H_DEFAULT : r.below(H_N); c.acts.push_back(a); }
    return; }
  if (r.chance(60)) for (int n = r.range(1, 10); n--;) { Act a; a.ev = r.below(r.chance(50) ? 12 : 60); a.kind = r.below(A_NKINDS); a.arg = a.kind == A_PEPARSING ? r.below(4) - 1 : r.below(H_N); c.acts.push_back(a); }
}
// Nesting and breadth far beyond what recursion over the structure would survive.  p: shape, size.
namespace deep {
struct D { XML_Parser p; long starts, ends, text, ns, nodes, depth, atts, models; };
static void XMLCALL start(void *u, const XML_Char *, const XML_Char **a) { OutLib _o; D *d = (D *)u; d->starts++; while (a[0]) d->atts++, a += 2; }
static void XMLCALL end(void *u, const XML_Char *) { OutLib _o; ((D *)u)->ends++; }
static void XMLCALL text(void *u, const XML_Char *, int n) { OutLib _o; ((D *)u)->text += n; }
static void XMLCALL sns(void *u, const XML_Char *, const XML_Char *) { OutLib _o; ((D *)u)->ns++; }
static void XMLCALL ens(void *u, const XML_Char *) { OutLib _o; ((D *)u)->ns--; }
static void XMLCALL model(void *u, const XML_Char *, XML_Content *m) { OutLib _o; D *d = (D *)u; d->models++; for (XML_Content *x = m;; x = &x->children[x->numchildren - 1]) { d->depth++; d->nodes += x->numchildren; if (!x->numchildren) break; } { InLib g; API_SUT.XML_FreeContentModel_(d->p, m); } }
static int XMLCALL ext(XML_Parser p, const XML_Char *c, const XML_Char *, const XML_Char *sys, const XML_Char *);
static std::string *extdoc;
static int XMLCALL ext(XML_Parser p, const XML_Char *ctx, const XML_Char *, const XML_Char *, const XML_Char *) { OutLib _o; InLib g; XML_Parser c = API_SUT.XML_ExternalEntityParserCreate_(p, ctx, nullptr); int st = API_SUT.XML_Parse_(c, extdoc->data(), (int)extdoc->size(), 1); API_SUT.XML_ParserFree_(c); return st; }
static std::string rep(long n, const char *s) { std::string o; o.reserve(n * strlen(s)); while (n--) o += s; return o; }
static std::string chk(const Case &c) {
  const Api &A = API_SUT; long shape = c.p[0], n = c.p[1], live = g_alloc.live; D d; memset(&d, 0, sizeof d); std::string doc, xd, tail; bool ns = shape == 5, final = true; int want = 0; D w = d;
  auto chain = [&](const char *decl, const char *ref) { std::string o; char b[100]; for (long i = 1; i < n; i++) { snprintf(b, 100, decl, i, i - 1); o += b; } snprintf(b, 100, ref, n - 1); tail = b; return o; };
  switch (shape) {
    case 0: case 2: doc = rep(n, "<a>"); w.starts = n; final = false; break;
    case 1: case 3: doc = rep(n, "<a>") + rep(n, "</a>"); w.starts = w.ends = n; break;
    case 4: doc = "<!DOCTYPE a [<!ELEMENT a " + rep(n, "(") + "b" + rep(n, ")") + ">]><a/>"; w.starts = w.ends = 1; w.models = 1; w.depth = n + 1; w.nodes = n; break;
    case 5: doc = rep(n, "<a xmlns:p='u'>") + rep(n, "</a>"); w.starts = w.ends = n; break;
    case 6: doc = "<!DOCTYPE a [<!ENTITY e0 'x'>" + chain("<!ENTITY e%ld '&e%ld;'>", "]><a>&e%ld;</a>") + tail; w.starts = w.ends = w.text = 1; break;
    case 7: doc = "<!DOCTYPE a [<!ENTITY e0 'x'>" + chain("<!ENTITY e%ld '&e%ld;'>", "]><a b='&e%ld;'/>") + tail; w.starts = w.ends = w.atts = 1; break;
    case 8: doc = "<!DOCTYPE a [<!ENTITY % e0 '<!ELEMENT x (b)>'>" + chain("<!ENTITY %% e%ld '&#37;e%ld;'>", "%%e%ld;]><a/>") + tail; w.starts = w.ends = w.models = 1; w.depth = 2; w.nodes = 1; break;
    case 9: doc = "<!DOCTYPE a SYSTEM 's'><a>&g;</a>"; xd = "<!ENTITY % e0 'x'>" + chain("<!ENTITY %% e%ld '%%e%ld;'>", "<!ENTITY g '%%e%ld;'>") + tail; w.starts = w.ends = w.text = 1; break;
    case 10: doc = "<!DOCTYPE a SYSTEM 's'><a/>"; xd = rep(n, "<![INCLUDE[") + "<!ELEMENT x (b)>" + rep(n, "]]>"); w.starts = w.ends = w.models = 1; w.depth = 2; w.nodes = 1; break;
    case 11: doc = "<!DOCTYPE a SYSTEM 's'><a/>"; xd = "<![IGNORE[" + rep(n, "<![INCLUDE[") + "<!ELEMENT x (b)>" + rep(n, "]]>") + "]]>"; w.starts = w.ends = 1; break;
    case 12: doc = "<!DOCTYPE a [<!ELEMENT a (b" + rep(n, "|bc") + ")>]><a/>"; w.starts = w.ends = w.models = 1; w.depth = 2; w.nodes = n + 1; break;
    case 13: { doc = "<a"; char b[60]; for (long i = 0; i < n; i++) { snprintf(b, 60, " a%ld='v'", i); doc += b; } doc += "/>"; w.starts = w.ends = 1; w.atts = n; break; }
    case 14: { doc = "<!DOCTYPE a [<!ATTLIST a"; char b[60]; for (long i = 0; i < n; i++) { snprintf(b, 60, " a%ld CDATA 'v'", i); doc += b; } doc += ">]><a/>"; w.starts = w.ends = 1; w.atts = n; break; }
    case 15: { doc = "<a"; char b[60]; for (long i = 0; i < n; i++) { snprintf(b, 60, " xmlns:p%ld='u'", i); doc += b; } doc += "/>"; ns = true; w.starts = w.ends = 1; break; }
    default: { doc = "<!DOCTYPE a [<!ENTITY e 'x'>]><a>" + rep(n, "&e;&#120;") + "</a>"; w.starts = w.ends = 1; w.text = 2 * n; break; }
  }
  XML_Parser p; { InLib g; p = ns ? A.XML_ParserCreateNS_(nullptr, '|') : A.XML_ParserCreate_(nullptr); }
  d.p = p; w.p = p; extdoc = &xd; int st = 1, err;
  { InLib g; A.XML_SetUserData_(p, &d); A.XML_SetElementHandler_(p, start, end); A.XML_SetCharacterDataHandler_(p, text); A.XML_SetElementDeclHandler_(p, model); A.XML_SetNamespaceDeclHandler_(p, sns, ens); A.XML_SetExternalEntityRefHandler_(p, ext); A.XML_SetParamEntityParsing_(p, XML_PARAM_ENTITY_PARSING_ALWAYS);
    for (size_t at = 0; at < doc.size() && st; at += 1 << 20) st = A.XML_Parse_(p, doc.data() + at, (int)std::min<size_t>(1 << 20, doc.size() - at), final && at + (1 << 20) >= doc.size());
    err = A.XML_GetErrorCode_(p); if (shape == 2 || shape == 3) { A.XML_ParserReset_(p, nullptr); if (A.XML_Parse_(p, "<a/>", 4, 1) != 1) err = 1000; } A.XML_ParserFree_(p); }
  g_stats->evals++; g_stats->runs++; g_stats->nontrivial++; g_stats->accepted += st; g_stats->steps += d.starts + d.text + d.nodes + d.atts; uint64_t h = (uint64_t)shape * 1000003 + n; g_stats->seen(h * 0x9E3779B97F4A7C15ull);
  auto sh = [](const D &x, int e) { char b[300]; snprintf(b, 300, "starts %ld ends %ld text %ld bindings left %ld models %ld nodes %ld depth %ld attributes %ld error %d", x.starts, x.ends, x.text, x.ns, x.models, x.nodes, x.depth, x.atts, e); return std::string(b); };
  if (sh(d, err) != sh(w, want)) return "  expected: " + sh(w, want) + "\n  observed: " + sh(d, err) + "\n";
  if (g_alloc.live != live) return "  library blocks still allocated: " + std::to_string(g_alloc.live - live) + "\n";
  return "";
}
static void gen(Rng &r, uint64_t i, Case &c) {
  long shape = i % 17; bool ents = shape >= 6 && shape <= 9;   // (internal entities nest on the stack: see the known findings)
  long top = ents ? 2000 : g_tier ? 600000 : 250000; if (shape == 14) top = 3000;
  long lo = top / 60; c.p = {shape, i < 17 ? top : (long)(lo + r.below((uint32_t)(top - lo)))}; Doc d; c.docs.push_back(d);
}
}
__attribute__((constructor)) static void reg() {
  add("deep", deep::gen, deep::chk);
  add("mem", [](Rng &r, uint64_t, Case &c) { hostile(r, c); }, chk_mem);
}
