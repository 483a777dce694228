// C07: every code point, in every position and encoding, against an independent table of the XML 1.0 (4th edition)
// character classes; every malformed byte sequence.
#include "oracles.h"
#include "xmlchar.inc"
#include <cstring>
template <size_t N> static bool in(const unsigned short (&t)[N][2], uint32_t c) { if (c > 0xFFFF) return false; size_t a = 0, b = N; while (a < b) { size_t m = (a + b) / 2; if (t[m][1] < c) a = m + 1; else b = m; } return a < N && t[a][0] <= c; }
static bool is_char(uint32_t c) { return c == 9 || c == 10 || c == 13 || (c >= 0x20 && c <= 0xD7FF) || (c >= 0xE000 && c <= 0xFFFD) || (c >= 0x10000 && c <= 0x10FFFF); }
static bool is_namestart(uint32_t c) { return in(XC_NAMESTART, c); }
static bool is_name(uint32_t c) { return in(XC_NAME, c); }
// libexpat's ISO-8859-1 table (used for UTF-16 too) has always taken the letters U+00AA, U+00B5, U+00BA for name characters
static bool latin_extra(uint32_t c, int e);
static bool is_pubid(uint32_t c) { return c == 0x20 || c == 13 || c == 10 || (c < 0x80 && (isalnum((int)c) || (c && strchr("-'()+,./:=?;!*#@$_%", (int)c)))); }
enum { K_CHAR, K_START, K_NAME, K_PUBID };
struct Where { const char *pre, *post; int kind; const char *skip; char ev; const char *what; };
// {text before, text after, class required, ASCII characters with a meaning of their own there, event that shows the character}
static const Where W[] = {
  {"<a>", "</a>", K_CHAR, "<&", 'T', "character data"},
  {"<a b=\"", "\"/>", K_CHAR, "<&\"", 'V', "attribute value"},
  {"<!-- ", " --><a/>", K_CHAR, "", 'C', "comment"},
  {"<?p x", " ?><a/>", K_CHAR, "", 'P', "processing instruction"},
  {"<a><![CDATA[", " ]]></a>", K_CHAR, "", 'T', "CDATA section"},
  {"<", "/>", K_START, "", 'S', "element name, first character"},
  {"<n", "/>", K_NAME, "", 'S', "element name"},
  {"<a ", "=\"1\"/>", K_START, "", 'N', "attribute name, first character"},
  {"<a n", "=\"1\"/>", K_NAME, "", 'N', "attribute name"},
  {"<?", " d?><a/>", K_START, "", 't', "PI target, first character"},
  {"<?n", " d?><a/>", K_NAME, "", 't', "PI target"},
  {"<!DOCTYPE a [<!ENTITY ", " \"v\">]><a/>", K_START, "%", 'e', "entity name, first character"},
  {"<!DOCTYPE a [<!ENTITY n", " \"v\">]><a/>", K_NAME, "", 'e', "entity name"},
  {"<!DOCTYPE a [<!ATTLIST a b (", ") #IMPLIED>]><a/>", K_NAME, "", 'y', "name token"},
  {"<!DOCTYPE a [<!ENTITY e \"", "\">]><a/>", K_CHAR, "%&\"", 'v', "entity value"},
  {"<!DOCTYPE a [<!NOTATION n PUBLIC \"x", "x\">]><a/>", K_PUBID, "\"", 'q', "public identifier"},
  {"<!DOCTYPE a [<!ELEMENT a (", ")>]><a/>", K_START, "%(|,", 'm', "content model name, first character"},
  {"<!DOCTYPE a [<!ELEMENT a (n", ")>]><a/>", K_NAME, "?*+", 'm', "content model name"},
  {"<!DOCTYPE ", "><a/>", K_START, "", 'd', "document type name, first character"},
  {"<!DOCTYPE n", "><a/>", K_NAME, "", 'd', "document type name"},
  {"<!DOCTYPE a SYSTEM \"", "\"><a/>", K_CHAR, "\"", 's', "system identifier"},
  {"<!DOCTYPE a [<!ENTITY n", nullptr, K_NAME, "", 'e', "entity name and reference"},
  {"<!DOCTYPE a [<!ATTLIST n", " b CDATA #IMPLIED>]><a/>", K_NAME, "", 'y', "ATTLIST element name"},
  {"<!DOCTYPE a [<!NOTATION ", " SYSTEM 'x'>]><a/>", K_START, "", 'o', "notation name, first character"},
  {"<!DOCTYPE a [<!ELEMENT a ANY><!-- ", " -->]><a/>", K_CHAR, "", 'C', "comment in the subset"},
  {"<a/><!-- ", " -->", K_CHAR, "", 'C', "comment after the root"},
  {"", "", K_CHAR, nullptr, 'r', "character reference"},
  {"", "", K_CHAR, nullptr, 'R', "character reference in an attribute value"},
};
static const int NW = sizeof W / sizeof *W;
enum { E_U8, E_LE, E_BE, E_L1, E_ASCII, E_SB, E_MB, NE };
static const char *const EN[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "ISO-8859-1", "US-ASCII", "x-one", "x-two"};
struct Seen { std::string v; int cp = -1; };
static thread_local Seen S;
static int XMLCALL conv(void *, const char *) { return S.cp; }
static int XMLCALL unk(void *, const XML_Char *n, XML_Encoding *i) {
  std::string s = xs(n); for (int k = 0; k < 256; k++) i->map[k] = k < 0x80 ? k : -1;
  if (s == "x-one") i->map[0xA5] = S.cp; else if (s == "x-two") { i->map[0xA5] = -2; i->convert = conv; } else return 0;
  return 1;
}
static bool latin_extra(uint32_t c, int e) { return (c == 0xAA || c == 0xB5 || c == 0xBA) && (e == E_L1 || e == E_LE || e == E_BE); }
static thread_local char want; // the event looked at
static void XMLCALL h_start(void *, const XML_Char *n, const XML_Char **a) { if (want == 'S') S.v = xs(n); if (*a) { if (want == 'N') S.v = xs(a[0]); if (want == 'V' || want == 'R') S.v = xs(a[1]); } }
static void XMLCALL h_text(void *, const XML_Char *s, int n) { if (want == 'T' || want == 'r') S.v += xs(s, n); }
static void XMLCALL h_comment(void *, const XML_Char *s) { if (want == 'C') S.v = xs(s); }
static void XMLCALL h_pi(void *, const XML_Char *t, const XML_Char *d) { if (want == 'P') S.v = xs(d); if (want == 't') S.v = xs(t); }
static void XMLCALL h_ent(void *, const XML_Char *n, int, const XML_Char *v, int vl, const XML_Char *, const XML_Char *, const XML_Char *, const XML_Char *) { if (want == 'e') S.v = xs(n); if (want == 'v') S.v = xs(v, vl); }
static void XMLCALL h_att(void *, const XML_Char *e, const XML_Char *, const XML_Char *t, const XML_Char *, int) { if (want == 'y') S.v = xs(t) == "CDATA" ? xs(e) : xs(t); }
static void XMLCALL h_not(void *, const XML_Char *n, const XML_Char *, const XML_Char *, const XML_Char *p) { if (want == 'q') S.v = p ? xs(p) : "~"; if (want == 'o') S.v = xs(n); }
static thread_local XML_Parser cur;
static void XMLCALL h_elem(void *, const XML_Char *, XML_Content *m) { if (want == 'm' && m->numchildren == 1) S.v = xs(m->children[0].name); API_SUT.XML_FreeContentModel_(cur, m); }
static void XMLCALL h_doc(void *, const XML_Char *n, const XML_Char *s, const XML_Char *, int) { if (want == 'd') S.v = xs(n); if (want == 's') S.v = s ? xs(s) : "~"; }
// 1 accepted, 0 rejected (error code in err)
static int parse(const std::string &doc, const char *enc, size_t cut, char ev, int &err) {
  const Api &A = API_SUT; S.v.clear(); want = ev; auto e = xc(enc ? enc : "");
  XML_Parser p = A.XML_ParserCreate_(enc ? e.c_str() : nullptr); cur = p;
  A.XML_SetStartElementHandler_(p, h_start); A.XML_SetCharacterDataHandler_(p, h_text); A.XML_SetCommentHandler_(p, h_comment); A.XML_SetProcessingInstructionHandler_(p, h_pi);
  A.XML_SetEntityDeclHandler_(p, h_ent); A.XML_SetAttlistDeclHandler_(p, h_att); A.XML_SetNotationDeclHandler_(p, h_not); A.XML_SetElementDeclHandler_(p, h_elem); A.XML_SetStartDoctypeDeclHandler_(p, h_doc);
  A.XML_SetUnknownEncodingHandler_(p, unk, nullptr);
  int st = 1; err = 0;
  if (cut && cut < doc.size()) { st = A.XML_Parse_(p, doc.data(), (int)cut, 0); if (st == 1) st = A.XML_Parse_(p, doc.data() + cut, (int)(doc.size() - cut), 1); }
  else st = A.XML_Parse_(p, doc.data(), (int)doc.size(), 1);
  if (st != 1) err = A.XML_GetErrorCode_(p);
  A.XML_ParserFree_(p); g_stats->evals++; g_stats->runs++; if (st == 1) g_stats->accepted++; else { g_stats->rejected++; if (err < 64 && err >= 0) g_stats->errs[err]++; }
  return st == 1;
}
static void put16(std::string &o, uint32_t u, bool be) { if (be) { o += (char)(u >> 8); o += (char)u; } else { o += (char)u; o += (char)(u >> 8); } }
static std::string enc_ascii(const char *s, int e) { std::string o; for (; *s; s++) if (e == E_LE || e == E_BE) put16(o, (unsigned char)*s, e == E_BE); else o += *s; return o; }
static bool enc_cp(uint32_t c, int e, std::string &o) {   // false: this encoding has no way to write it
  switch (e) {
    case E_U8: utf8_put(o, c); return true;                               // (surrogates: the three-byte form, which is malformed)
    case E_LE: case E_BE: if (c < 0x10000) put16(o, c, e == E_BE); else { put16(o, 0xD800 + ((c - 0x10000) >> 10), e == E_BE); put16(o, 0xDC00 + ((c - 0x10000) & 1023), e == E_BE); } return true;
    case E_L1: if (c > 255) return false; o += (char)c; return true;
    case E_ASCII: if (c > 127) return false; o += (char)c; return true;
    case E_SB: if (c < 0x80 || c > 0xFFFF) return false; o += (char)0xA5; return true;
    case E_MB: if (c < 0x80) return false; o += (char)0xA5; o += (char)(0x80 + (c & 63)); return true;
  }
  return false;
}
static std::string u8(uint32_t c) { std::string o; utf8_put(o, c); return o; }
static std::string hexs(const std::string &s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x ", c); o += b; } return o; }
static std::string one(uint32_t c, int w, int e) {
  const Where &x = W[w]; std::string x2; bool ascii = c < 0x80;
  if (x.ev == 'r' || x.ev == 'R') {     // character references: written in ASCII, hexadecimal and decimal
    if (c == 0 && false) return "";
    char h[16]; std::string out;
    for (int f = 0; f < 3; f++) {
      snprintf(h, 16, f == 0 ? "&#x%X;" : f == 1 ? "&#x%x;" : "&#%u;", c);
      std::string d = enc_ascii(x.ev == 'r' ? "<a>" : "<a b='", e) + enc_ascii(h, e) + enc_ascii(x.ev == 'r' ? "</a>" : "'/>", e); int err;
      if (e == E_SB || e == E_MB) S.cp = 0x400;
      bool ok = parse(d, EN[e], 0, x.ev, err), must = is_char(c);
      if (ok != must) return "  " + std::string(h) + " in " + x.what + ": " + (ok ? "accepted" : "rejected with error " + std::to_string(err)) + ", XML 1.0 says " + (must ? "allowed" : "not allowed");
      if (ok && S.v != u8(c)) return "  " + std::string(h) + " in " + x.what + " reported as " + hexs(S.v);
      if (!ok && err != 14) return "  " + std::string(h) + " rejected with error " + std::to_string(err) + " instead of 14";
    }
    return "";
  }
  if (ascii && x.skip && *x.skip && c && strchr(x.skip, (int)c)) return "";
  bool must;
  if (x.kind == K_CHAR) must = is_char(c); else if (x.kind == K_PUBID) must = is_pubid(c);
  else { must = latin_extra(c, e) || (x.kind == K_START ? is_namestart(c) : is_name(c));
    if (ascii && !is_name(c) && (is_char(c))) return ""; }       // punctuation and white space have a syntax of their own
  S.cp = (int)c;
  std::string ch; if (!enc_cp(c, e, ch)) return "";
  if (e == E_SB && c > 0xFFFF) return "";
  if ((e == E_LE || e == E_BE) && c >= 0xD800 && c < 0xDC00) return ""; // libexpat pairs a leading surrogate with whatever follows
  if (e == E_MB && c > 0xFFFF) must = false;                      // beyond what a converter may return
  std::string pre, post;
  pre = enc_ascii(x.pre, e); char ev = x.ev;
  post = x.post ? enc_ascii(x.post, e) : enc_ascii(" \"v\"> <!ATTLIST a b CDATA '&n", e) + ch + enc_ascii(";'>]><a/>", e);
  std::string d = pre + ch + post;
  for (int how = 0; how < 2; how++) {
    size_t cut = how ? pre.size() + 1 + (ch.size() > 1 ? (c ^ w) % (ch.size() - 1) : 0) : 0; int err;
    bool ok = parse(d, EN[e], cut, ev, err);
    char b[160]; snprintf(b, 160, "  U+%04X (%s, %s)%s: ", c, x.what, EN[e], how ? " cut inside" : "");
    if (ok != must) return std::string(b) + (ok ? "accepted" : "rejected with error " + std::to_string(err)) + ", XML 1.0 says " + (must ? "allowed" : "not allowed");
    if (ok && ev != 'q') {
      std::string v = u8(c), s = S.v;
      if (c == 13 && ev != 's') v = "\n"; if (ev == 'V' && (c == 9 || c == 10 || c == 13)) v = " ";
      if (s.find(v) == std::string::npos) return std::string(b) + "reported as " + hexs(s);
    }
    g_stats->nontrivial++; g_stats->seen(((uint64_t)c << 20 | (uint64_t)w << 8 | (uint64_t)e << 2 | how << 1 | ok) * 0x9E3779B97F4A7C15ull);
  }
  return "";
}
static const int BLK = 256;
// --- malformed sequences
static const char *const SEQW[][2] = {{"<a>", "z</a>"}, {"<a b='", "z'/>"}, {"<!--", "z--><a/>"}, {"<?p ", "z?><a/>"}, {"<a><![CDATA[", "z]]></a>"}, {"<a", "z/>"}, {"<", "/>"}, {"<a b", "z='1'/>"}, {"<!DOCTYPE a [<!ENTITY e '", "z'>]><a/>"}, {"<!DOCTYPE a [<!ENTITY n", "z 'v'>]><a/>"}, {"<!DOCTYPE a SYSTEM '", "z'><a/>"}, {"<a/><!--", "z-->"}, {"<!DOCTYPE a [<!ATTLIST a b CDATA '", "z'>]><a/>"}};
static const int NSEQW = sizeof SEQW / sizeof *SEQW;
static bool strict_utf8(const std::string &s, std::vector<uint32_t> &cp) {
  for (size_t i = 0; i < s.size();) {
    unsigned char b = s[i]; uint32_t c; int n;
    if (b < 0x80) { cp.push_back(b); i++; continue; }
    if (b >= 0xC2 && b <= 0xDF) { n = 2; c = b & 31; } else if (b >= 0xE0 && b <= 0xEF) { n = 3; c = b & 15; } else if (b >= 0xF0 && b <= 0xF4) { n = 4; c = b & 7; } else return false;
    if (i + n > s.size()) return false;
    for (int k = 1; k < n; k++) { unsigned char t = s[i + k]; if ((t & 0xC0) != 0x80) return false; c = c << 6 | (t & 63); }
    if ((n == 3 && c < 0x800) || (n == 4 && (c < 0x10000 || c > 0x10FFFF)) || (c >= 0xD800 && c < 0xE000)) return false;
    cp.push_back(c); i += n;
  }
  return true;
}
static std::string seq_one(const std::string &q, int w, int e) {
  bool name = w == 5 || w == 6 || w == 7 || w == 9; bool must = true; std::vector<uint32_t> cp; std::string pre = enc_ascii(SEQW[w][0], e), post = enc_ascii(SEQW[w][1], e);
  if (e == E_U8) { if (!strict_utf8(q, cp)) must = false; }
  else for (size_t i = 0; i + 1 < q.size(); i += 2) { uint32_t u = e == E_LE ? (unsigned char)q[i] | (unsigned char)q[i + 1] << 8 : (unsigned char)q[i] << 8 | (unsigned char)q[i + 1]; if (u >= 0xD800 && u < 0xE000) must = false; cp.push_back(u); }
  for (size_t i = 0; must && i < cp.size(); i++) { if (cp[i] < 0x80) return ""; if (name ? !(w == 6 && i == 0 ? is_namestart(cp[i]) : is_name(cp[i])) : !is_char(cp[i])) must = false; }
  if (w == 10 && !must) {}
  for (int how = 0; how < 2; how++) {
    size_t cut = how ? pre.size() + 1 + (q.size() > 1 ? ((unsigned char)q[0] + w) % (q.size() - 1) : 0) : 0; int err;
    bool ok = parse(pre + q + post, EN[e], cut, 'T', err);
    if (ok != must) return "  bytes " + hexs(q) + "in \"" + SEQW[w][0] + "\" (" + EN[e] + ")" + (how ? " cut inside" : "") + (ok ? ": accepted" : ": rejected with error " + std::to_string(err)) + (must ? ", but they are well-formed and allowed" : ", but they are malformed or not allowed");
    g_stats->nontrivial++; uint64_t h = 14695981039346656037ull; for (unsigned char c : q) { h ^= c; h *= 1099511628211ull; } h ^= (uint64_t)w << 8 | how << 4 | ok; h *= 1099511628211ull; g_stats->seen(h ^ (uint64_t)e << 50);
  }
  return "";
}
static const unsigned char TB[] = {0x00, 0x20, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xB7, 0xBE, 0xBF, 0xC0, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xFF};
static std::string check_seq(const Case &c) {
  unsigned b1 = (unsigned)c.p[0]; int w = (int)c.p[1], kind = (int)c.p[2], b3f = (int)c.p[3];
  std::string q, v;
  if (kind == 2) { for (int a = 0; a < 256; a++) { q = {(char)b1, (char)a}; if (!(v = seq_one(q, w, E_U8)).empty()) return v; } q = {(char)b1}; return seq_one(q, w, E_U8); }
  if (kind == 3) { unsigned char t = TB[b3f]; for (int a = 0; a < 256; a++) { q = {(char)b1, (char)a, (char)t}; if (!(v = seq_one(q, w, E_U8)).empty()) return v; } return ""; }
  if (kind == 4) { unsigned char t = TB[b3f]; for (int a = 0x70; a < 0xD0; a++) for (unsigned char z : {0x00, 0x7F, 0x80, 0xBE, 0xBF, 0xC0, 0xF0, 0x3C}) { q = {(char)b1, (char)a, (char)t, (char)z}; if (!(v = seq_one(q, w, E_U8)).empty()) return v; } return ""; }
  // UTF-16: a trailing surrogate alone
  for (int k = 0; k < 4; k++) for (int e : {E_LE, E_BE}) { q.clear(); put16(q, 0xDC00 + (b1 << 2) + k, e == E_BE); if (!(v = seq_one(q, w, e)).empty()) return v; }
  return "";
}
__attribute__((constructor)) static void reg() {
  static const long BMP = 65536 / BLK, ALL = 0x110000 / BLK;
  static const long NB = BMP * NW * NE, NS = (ALL - BMP) * NW * NE;
  auto chk = [](const Case &c) -> std::string {
    uint32_t b = (uint32_t)c.p[0] * BLK; int w = (int)c.p[1], e = (int)c.p[2];
    for (uint32_t k = 0; k < (uint32_t)BLK; k++) { std::string v = one(b + k, w, e); if (!v.empty()) return v + "\n"; }
    return "";
  };
  // (the index is spread over the space by a multiplier coprime to its size, so that every part of a run samples all of it)
  add("char", [](Rng &, uint64_t i, Case &c) { c.docs.push_back(Doc()); uint64_t k = i * 1000003ull % NB; c.p = {(long)(k % BMP), (long)(k / BMP % NW), (long)(k / BMP / NW)}; }, chk, NB);
  add("char-sup", [](Rng &, uint64_t i, Case &c) { c.docs.push_back(Doc()); uint64_t k = i * 1000003ull % NS; c.p = {BMP + (long)(k % (ALL - BMP)), (long)(k / (ALL - BMP) % NW), (long)(k / (ALL - BMP) / NW)}; }, chk, NS);
  static const int NT = sizeof TB;
  static const long N2 = 128L * NSEQW, N3 = 32L * NSEQW * NT, N4 = 16L * NSEQW * NT, N16 = 256L * NSEQW, N = N2 + N3 + N4 + N16;
  add("char-seq", [](Rng &, uint64_t i, Case &c) {
    c.docs.push_back(Doc()); uint64_t k = i * 7919ull % N;
    if (k < (uint64_t)N2) c.p = {128 + (long)(k % 128), (long)(k / 128), 2, 0};
    else if ((k -= N2) < (uint64_t)N3) c.p = {(long)(k % 16) + 0xE0 + (k % 32 >= 16 ? -32 : 0), (long)(k / 32 % NSEQW), 3, (long)(k / 32 / NSEQW)};
    else if ((k -= N3) < (uint64_t)N4) c.p = {0xF0 + (long)(k % 16), (long)(k / 16 % NSEQW), 4, (long)(k / 16 / NSEQW)};
    else { k -= N4; c.p = {(long)(k % 256), (long)(k / 256), 16, 0}; }
  }, check_seq, N);
}
