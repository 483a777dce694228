// Enumerated inputs, judged by comparison with the reference: all short sequences of tokens and of bytes in the contexts
// of the grammar, and every single-byte change of a set of template documents.
#include "oracles.h"
#include <numeric>
#include <array>
#include <cstring>
typedef std::vector<std::string> VS;
struct Ctx { std::string pre, post, ext; VS toks; int ns; };   // ext: the tokens go into the external subset
static std::vector<Ctx> &ctxs() {
  static std::vector<Ctx> v;
  if (!v.empty()) return v;
  std::string D = "<!DOCTYPE r [<!ENTITY % p \"x\"><!ENTITY e \"v<i/>\"> ";
  VS content = {"<a>", "</a>", "<a/>", "<", "</", ">", "/>", "a", " ", "=", "\"", "'", "&lt;", "&#65;", "&e;", "&", ";", "<!--", "-->", "--", "<?p", "?>", "<![CDATA[", "]]>", "]", "\r", "\n", "%", "!", "\xC3\xA9", "</r>", "<r>"};
  v.push_back({D + "]><r>", "</r>", "", content, 0});
  v.push_back({"<r", "></r>", "", {" ", "a", "b", "=", "\"", "'", "x", "&lt;", "&#x20;", "&e;", "<", ">", "/", " xmlns", ":", " a:b=''", " xmlns:a=\"u\"", "\t", "\n", " a='1'", " b=\"2\"", "xml", "&", ";"}, 0});
  v.push_back({"<r", "></r>", "", {" ", "a", "=", "\"", "'", " xmlns='u'", " xmlns=''", " xmlns:a=''", " a:b=''", " c:b=''", " xmlns:a=\"u\"", " xmlns:c='u'", " xmlns:xml='u'", " xmlns:xml='http://www.w3.org/XML/1998/namespace'", " xmlns:c='http://www.w3.org/XML/1998/namespace'", " xmlns:xmlns='u'", " xmlns:c='http://www.w3.org/2000/xmlns/'", " xml:lang=''", " :a=''", " a:=''", "><a:x", "><b:y/", "><c:z xmlns:a='w'", "></a:x", ":x"}, 1});
  v.push_back({"", "<r/>", "", {"<?xml", " version=\"1.0\"", " encoding=\"UTF-8\"", " standalone=\"yes\"", "?>", " ", "<!DOCTYPE", " r", " SYSTEM", " PUBLIC", " \"x\"", " 'y'", "[", "]", ">", "<!--c-->", "<?p?>", "<!", "%e;", "<r/>", "text", "&e;", "\xEF\xBB\xBF", "<![CDATA[", "]]>", "</r>", "\n"}, 0});
  v.push_back({"<r/>", "", "", {"<?xml version='1.0'?>", " ", "\n", "\r", "<!--c-->", "<!--", "-->", "<?p", "?>", "<!DOCTYPE r>", "<r/>", "text", "&#32;", "&e;", "<![CDATA[x]]>", "</r>", "<", ">", "]]>", "<?", "-"}, 0});
  VS el = {" ", " r", "(", ")", "|", ",", "*", "+", "?", "EMPTY", " ANY", "#PCDATA", " %p;", "a", "\"x\"", ">", "(a)", "(a,b)", "(a|b)*", "--"};
  v.push_back({D + "<!ELEMENT", ">]><r/>", "", el, 0});
  v.push_back({D + "<!ELEMENT r (", ")>]><r/>", "", el, 0});
  VS at = {" ", " r", " a", " CDATA", " ID", " IDREF", " IDREFS", " ENTITY", " ENTITIES", " NMTOKEN", " NMTOKENS", " NOTATION", " (", "x", "|", ")", " #REQUIRED", " #IMPLIED", " #FIXED", " \"v\"", " '&e;'", " %p;", ">", "1", "#", "*"};
  v.push_back({D + "<!ATTLIST", ">]><r/>", "", at, 0});
  v.push_back({D + "<!ATTLIST r a", ">]><r/>", "", at, 0});
  VS en = {" ", " e", " %", "%", " \"v\"", " 's'", " SYSTEM", " PUBLIC", " NDATA", " n", " \"&#60;\"", " \"&e;\"", " \"%p;\"", " '<'", " '&'", " %p;", ">", " \"\"", " f", " '&#x;'", " '%'", "\"", "--"};
  v.push_back({D + "<!ENTITY", ">]><r>&e;&f;</r>", "", en, 0});
  v.push_back({D + "<!ENTITY f", ">]><r>&f;</r>", "", en, 0});
  v.push_back({D + "<!ENTITY % f", "> %f; ]><r/>", "", en, 0});
  v.push_back({D + "<!NOTATION", ">]><r/>", "", {" ", " n", " SYSTEM", " PUBLIC", " \"s\"", " 'p'", " %p;", ">", "n", "\"", " \"{}\"", "--", "[", "]"}, 0});
  VS sub = {"<!ELEMENT", "<!ATTLIST", "<!ENTITY", "<!NOTATION", "<!", " r", " ANY", ">", "<!--", "-->", "<?p", "?>", "]", "[", "%p;", "%q;", "%u;", "%", " ", "\"x\"", "<!ENTITY % q '<!ELEMENT q ANY>'>", "<![INCLUDE[", "]]>", "<r/>", "&e;", "<?xml?>", "text"};
  v.push_back({D, "]><r/>", "", sub, 0});
  v.push_back({"<!DOCTYPE r SYSTEM 'x'><r/>", "", "x", {"<!ELEMENT r ANY>", "<!ENTITY % i 'INCLUDE'>", "<!ENTITY % q 'IGNORE'>", "<![", "INCLUDE", "IGNORE", "%i;", "%q;", "[", "]]>", "]", " ", "<!--", "-->", "\"", "<", ">", "<?p?>", "%u;", "<!ENTITY % d '<!ELEMENT d ANY'>", "%d;", "<?xml encoding='UTF-8'?>", "<![IGNORE[", "<![INCLUDE["}, 0});
  v.push_back({"<!DOCTYPE r SYSTEM 'x'><r/>", "", "x", {"<!ENTITY % p '", "%p;", "<!ELEMENT r ", "<!ATTLIST r ", "(", "a", "|", ")", ">", "'", " ANY", " CDATA", " #IMPLIED", " ", "*", "\">", "<!ENTITY e \"", "&#37;", "&#60;", "&e;", "%", "-->", "<!--", "]]>"}, 0});
  VS xd = {" version", "=", "\"1.0\"", "'1.1'", " encoding", "\"UTF-8\"", "\"bogus\"", "'x-sb1'", " standalone", "\"yes\"", "'no'", "\"maybe\"", " ", "\"", "'", "?", ">", " version='1.0'", " encoding='utf-8'", " standalone='yes'", "\t", "\"1\"", "'2.0'", "\"\"", "a", "<"};
  v.push_back({"<?xml", "?><r/>", "", xd, 0});
  v.push_back({"<!DOCTYPE r SYSTEM 'x'><r/>", "?><!ELEMENT r ANY>", "x<?xml", xd, 0});
  v.push_back({"<!DOCTYPE", "><r/>", "", {" ", " r", " SYSTEM", " PUBLIC", " \"s\"", " 'p'", " [", "]", "[", ">", " \"{}\"", "<!ELEMENT r ANY>", "%p;", "a", "\"", "<!--c-->", ":b", "\n"}, 1});
  return v;
}
static long pw(long b, int e) { long r = 1; while (e--) r *= b; return r; }
static long seqs(long b, int L) { long r = 0; for (int k = 0; k <= L; k++) r += pw(b, k); return r; }
static std::string seq(const VS &t, long i) { long n = (long)t.size(); int L = 0; while (i >= pw(n, L)) { i -= pw(n, L); L++; } std::string o; while (L--) { o += t[i % n]; i /= n; } return o; }
static long spread(uint64_t i, long n) { static const uint64_t P[] = {1000003, 15485863, 32452843}; for (uint64_t p : P) if (std::gcd<uint64_t>(p, n) == 1) return (long)((unsigned __int128)i * p % n); return (long)(i % n); }
static bool pos;
static void build(Case &c, const Ctx &x, const std::string &mid, uint64_t h) {
  c.ns = x.ns ? 1 : (h % 5 == 0); c.flags = (pos ? F_POS : 0) | F_CTX; c.pe = 2 - (h / 5 % 4 == 0); Doc d; h /= 20;
  auto cut = [&](Doc &y, uint64_t k) { if (k % 3 == 1) y.chunks.assign(y.data.size(), 1); else if (k % 3 == 2 && !y.data.empty()) y.chunks.push_back((int)(k / 3 % y.data.size())); y.mode = (int)(k / 64 % 2); };
  if (x.ext.empty()) { d.data = x.pre + mid + x.post; cut(d, h); c.docs.push_back(d); }
  else { d.data = x.pre; c.docs.push_back(d); Doc e; e.sysid = "x"; e.data = x.ext.substr(1) + mid + x.post; cut(e, h); c.docs.push_back(e); }
}
static long total_tok(int L) { long n = 0; for (auto &x : ctxs()) n += seqs((long)x.toks.size(), L); return n; }
static void gen_tok(uint64_t idx, Case &c, int L, long total) {
  long k = spread(idx, total);
  for (auto &x : ctxs()) { long n = seqs((long)x.toks.size(), L); if (k < n) { build(c, x, seq(x.toks, k), (idx * 0x9E3779B97F4A7C15ull) >> 20); return; } k -= n; }
}
static const VS &bytes() { static const VS v = {"<", ">", "/", "!", "?", "[", "]", "-", "&", ";", "#", "%", "\"", "'", "=", " ", "\n", "\r", "a", "x", ":", "1", std::string(1, '\0'), "\x80", "\xC3", "|", ")", "("}; return v; }
static std::vector<Ctx> &bctx() {
  static std::vector<Ctx> v; if (!v.empty()) return v;
  for (auto &p : std::vector<std::array<std::string, 2>>{{"", ""}, {"", "<a/>"}, {"<a>", "</a>"}, {"<a", "></a>"}, {"<a b='", "'/>"}, {"<!DOCTYPE a [", "]><a/>"}, {"<!DOCTYPE a [<!ENTITY x 'y'><!ENTITY % x '", "'> %x; ]><a/>"}, {"<!DOCTYPE a [<!ELEMENT a (a", ")>]><a/>"}, {"<a/>", ""}, {"<a>&#", ";</a>"}, {"<a><![CDATA[", "]]></a>"}, {"<a><!--", "--></a>"}, {"<?x", "?><a/>"}}) v.push_back({p[0], p[1], "", bytes(), 0});
  v.push_back({"<!DOCTYPE a SYSTEM 'x'><a/>", "", "x", bytes(), 0}); v.push_back({"<!DOCTYPE a SYSTEM 'x'><a/>", "]]>", "x<![", bytes(), 0}); v.push_back({"<!DOCTYPE a SYSTEM 'x'><a/>", "]]>", "x<![IGNORE[", bytes(), 0});
  return v;
}
// --- single-byte changes
static const char *const TPL[] = {
  "<?xml version=\"1.0\" encoding='UTF-8' standalone=\"no\"?>\n<r a=\"v\"/>", "<r>text &amp; &#x41; &#66; more</r>", "<r><!-- a - b --><?pi data?><![CDATA[x]]y]]></r>", "<a:r xmlns:a='u' xmlns='v' a:b='c'><d e=\"f\"/></a:r>",
  "<!DOCTYPE r [<!ELEMENT r (a?,(b|c)+,d*)><!ELEMENT a EMPTY><!ELEMENT m (#PCDATA|x)*>]><r/>", "<!DOCTYPE r [<!ATTLIST r a CDATA 'x&lt;' b (p|q) \"p\" c NOTATION (n) #IMPLIED d ID #REQUIRED e NMTOKENS #FIXED ' a  b '>]><r/>",
  "<!DOCTYPE r [<!ENTITY e \"t&#x3c;b/>\"><!ENTITY % p '<!ENTITY q \"z\">'> %p; ]><r>&e;&q;</r>", "<!DOCTYPE r [<!ENTITY u SYSTEM \"s\" NDATA n><!NOTATION n PUBLIC 'p' \"s\"><!ENTITY x PUBLIC \"p q\" 'y'>]><r>&x;</r>", "<!DOCTYPE r PUBLIC \"-//A//B\" 'x' [ ]>\r\n<r>\r\n</r>\r\n",
  "<r a='1' b=\"2\" c='&#9;&lt;' ><s  /></r >\n<!--end--><?e?>", "\xEF\xBB\xBF<r\xC3\xA9 \xE4\xB8\x80='\xF0\x9F\x98\x80'>\xE2\x82\xAC</r\xC3\xA9>", "<r>]] > ]]&gt; %x; 'q' \"d\"\t\n</r>", "<?xml version='1.0' encoding='ISO-8859-1'?><r>\xE9\xA9</r>", "<?xml version='1.0' encoding='x-sb2'?><r>\xE9\xA9</r>", "<?xml version='1.0' encoding='x-mb2'?><r \xD0='\x81\x85'>\x82\x90</r>",
  "<r><a><b><c/></b></a><a><b></b></a></r>", "<!DOCTYPE r [<!ENTITY a '&b;&b;'><!ENTITY b 'x<y/>'>]><r z='&#65;'>&a;</r>", "<!DOCTYPE r [<!-- c --><?p i?> %u; <!ENTITY l 'm'>]><r>&l;&k;</r>", "<r xml:lang='en' xmlns:b='w'><b:c b:d='1' d='2'/></r>", "<?xml version='1.0' encoding='US-ASCII'?><!DOCTYPE r [<!ELEMENT r ANY>]><r>abc</r>",
};
static const char *const ETPL[] = { "<?xml version='1.0' encoding='UTF-8'?><!ELEMENT r ANY><![INCLUDE[<!ATTLIST r a CDATA 'd'>]]><![ IGNORE [ x <![ y ]]> ]]>", "<!ENTITY % i 'INCLUDE'><![%i;[<!ENTITY e 'v'>]]><!ENTITY % c '(a|b)'><!ELEMENT r %c;><!ENTITY g '%c;x'>", "<!ENTITY % d \"<!ATTLIST r a (x|y) 'x'>\">%d;<!NOTATION n SYSTEM 's'><!--c-->" };
struct Tp { std::string d; bool ext; };
static std::vector<Tp> &tpl() { static std::vector<Tp> v; if (v.empty()) { for (auto t : TPL) { v.push_back({t, false}); if (!strstr(t, "encoding") && (unsigned char)*t < 0x80) { for (auto e : {"UTF-16LE", "UTF-16BE"}) { std::string o; if (transcode(t, e, o, true)) v.push_back({o, false}); } } } for (auto t : ETPL) v.push_back({t, true}); } return v; }
static long total_sub() { long n = 0; for (auto &t : tpl()) n += (long)t.d.size() * 516; return n; }
__attribute__((constructor)) static void reg() {
  static const long T3 = total_tok(3), T4 = total_tok(4), T5 = total_tok(5), B5 = 16 * seqs((long)bytes().size(), 5), B3 = 16 * seqs((long)bytes().size(), 3), B4 = 16 * seqs((long)bytes().size(), 4), TS = total_sub();
  auto pt = [](bool b, std::function<void(uint64_t, Case &)> f) { return [b, f](Rng &, uint64_t i, Case &c) { pos = b; f(i, c); }; };
  auto gb = [](uint64_t i, Case &c, long T) { long k = spread(i, T); build(c, bctx()[k % 16], seq(bytes(), k / 16), (i * 0x9E3779B97F4A7C15ull) >> 20); };
  auto t3 = [](uint64_t i, Case &c) { gen_tok(i, c, 3, T3); }; auto t4 = [](uint64_t i, Case &c) { gen_tok(i, c, 4, T4); }; auto t5 = [](uint64_t i, Case &c) { gen_tok(i, c, 5, T5); };
  auto b3 = [gb](uint64_t i, Case &c) { gb(i, c, B3); }; auto b4 = [gb](uint64_t i, Case &c) { gb(i, c, B4); }; auto b5 = [gb](uint64_t i, Case &c) { gb(i, c, B5); };
  auto sb = [](uint64_t i, Case &c) {
    long k = spread(i, TS); uint64_t h = (i * 0x9E3779B97F4A7C15ull) >> 20;
    for (auto &t : tpl()) { long n = (long)t.d.size() * 516; if (k >= n) { k -= n; continue; }
      size_t at = k / 516; int op = (int)(k % 516); std::string s = t.d; size_t p = at % s.size();
      if (op < 256) s[p] = (char)op; else if (op < 512) s.insert(p, 1, (char)(op - 256)); else if (op == 512) s.erase(p, 1); else if (op == 513) { if (p + 1 < s.size()) std::swap(s[p], s[p + 1]); } else if (op == 514) s.insert(p, 1, s[p]); else s.resize(p);
      if (t.ext) build(c, {"<!DOCTYPE r SYSTEM 'x'><r>&e;&g;</r>", "", "x", {}, 0}, s, h); else build(c, {"", "", "", {}, 0}, s, h);
      return; }
  };
  add("enum-tok", pt(false, t3), check_diff, T3); add("enum-tok4", pt(false, t4), check_diff, T4); add("enum-tok5", pt(false, t5), check_diff, T5);
  add("enum-bytes", pt(false, b3), check_diff, B3); add("enum-bytes4", pt(false, b4), check_diff, B4); add("enum-bytes5", pt(false, b5), check_diff, B5);
  add("ctrl", pt(false, sb), check_diff, TS);
  add("pos-tok", pt(true, t4), check_diff, T4); add("pos-bytes", pt(true, b4), check_diff, B4); add("pos-ctrl", pt(true, sb), check_diff, TS);
}
