// Scale: every construct at every size around the limits of buffers, pools, tables and blocks.
// One case is one shape at one size N (all small sizes, then around powers of two), with everything else drawn at random.
#include "oracles.h"
#include <cstring>
typedef std::string str;
static str rep(const str &s, long n) { str o; o.reserve(s.size() * (n > 0 ? n : 0)); while (n-- > 0) o += s; return o; }
static str num(long i) { return std::to_string(i); }
static const char *const CLS[] = {"x", "\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "ab", "x\xC3\xA9", "a\xE4\xB8\xAD", "\xF0\x9F\x98\x80z", "\xC3\xA9\xE4\xB8\xAD\xF0\x9F\x98\x80"};
static const char *const NCLS[] = {"x", "a", "\xC3\xA9", "\xE4\xB8\xAD", "x\xC3\xA9", "\xD0\x96y", "ab-", "n."};
static str cut(const str &s) { return s; }
struct Sh {
  Rng &r; int n; Case &c; bool nsok = true; std::vector<Doc> ext;
  str chars(long k) { str cl = r.pick(CLS), o = rep("y", r.below(4)); long cps = 0; for (unsigned char ch : cl) if ((ch & 0xC0) != 0x80) cps++; return k <= 0 ? "" : o + rep(cl, (k + cps - 1) / cps); }
  str nm(long k, char f = 'N') { if (k < 1) k = 1; str cl = r.pick(NCLS); long cps = 0; for (unsigned char ch : cl) if ((ch & 0xC0) != 0x80) cps++; str o(1, f); o += rep("q", r.below(3)); return o + rep(cl, (k - 1) / cps); }
  str nls(long k) { str o; while (k-- > 0) o += r.pick({"\n", "\r\n", "\r", "a\n", "\r\n\n", "\xC3\xA9\r\n"}); return o; }
  str after() { return r.pick({"<b/>", "&lt;", "<![CDATA[c]]>", "\n", "</a><!--z-->", "\r\n", "<?p?>", "]]", "z"}); }
  str wrap(const str &s) { str e = s; bool closed = false; if (e.find("</a><!--z-->") != str::npos) closed = true; return "<a>" + e + (closed ? "" : "</a>"); }
  int some() { return (int)r.below(r.chance(60) ? 6 : 70); }
  void doc(const str &s) { Doc d; d.data = s; c.docs.assign(1, d); for (auto &e : ext) c.docs.push_back(e); }
  void dtd(const str &s, const str &body = "<a/>") { doc("<!DOCTYPE a [" + s + "]>" + body); }
  void extdtd(const str &s, const str &body = "<a/>") { Doc d; d.sysid = "d"; d.data = s; ext.push_back(d); c.pe = 1 + (int)r.below(2); c.handlers |= HB(H_EXT); doc("<!DOCTYPE a SYSTEM 'd'>" + body); }
};
struct Shape { const char *group; int max; void (*f)(Sh &); };
#define SHAPE(g, m) {g, m, [](Sh &s) -> void { int n = s.n; Rng &r = s.r; (void)n; (void)r;
#define END }},
static const Shape SHAPES[] = {
  // ---- elements and content
  SHAPE("elem", 5000) str a, b; for (int i = 0; i < n; i++) { str e = "e" + num(i % 7); a += "<" + e + ">"; b = "</" + e + ">" + b; } s.doc("<a>" + a + "t" + b + "</a>"); END
  SHAPE("elem", 1200) int d = 1 + r.below(4); str a, b; for (int i = 0; i < d; i++) { str e = s.nm(n + i); a += "<" + e + (r.chance(30) ? " k='v'" : "") + ">"; b = "</" + e + ">" + b; } s.doc(a + s.chars(s.some()) + b); END
  SHAPE("elem", 5000) str a; for (int i = 0; i < n; i++) a += "<e" + num(i) + "/>"; s.doc("<a>" + a + "</a>"); END
  SHAPE("elem", 5000) str e = s.nm(n); s.doc("<" + e + (r.chance(50) ? "/>" : "></" + e + " >")); END
  SHAPE("elem", 5000) s.doc(s.wrap(s.chars(n) + s.after())); END
  SHAPE("elem", 5000) s.doc("<a>" + rep("<b>", s.some() % 5) + s.chars(n)); END
  SHAPE("elem", 5000) s.doc("<a><![CDATA[" + s.chars(n) + r.pick({"", "]", "]]", "\r", "\n", "\xC3\xA9"}) + "]]>" + s.chars(s.some()) + "</a>"); END
  SHAPE("elem", 5000) s.doc("<a><!--" + s.chars(n) + "-->" + s.chars(s.some()) + "</a><!--" + s.chars(s.some()) + "-->"); END
  SHAPE("elem", 5000) s.doc("<a><?" + s.nm(n) + " " + s.chars(s.some()) + "?></a><?" + s.nm(s.some()) + "?>"); END
  SHAPE("elem", 5000) s.doc("<?t " + s.chars(n) + "?><a><?t " + s.nls(s.some()) + s.chars(n) + "?></a>"); END
  SHAPE("elem", 2000) str a; for (int i = 0; i < n; i++) a += r.pick({"<!--c-->", "<?p q?>", "<![CDATA[ ]]>", "<b/>", "&amp;", "&#65;", "t", "\n", "\r\n"}); s.doc("<a>" + a + "</a>"); END
  SHAPE("elem", 5000) s.doc("<a>" + s.nls(n) + "<b/></a>"); END
  SHAPE("elem", 3000) s.doc("<a><![CDATA[" + s.nls(n) + "]]></a>"); END
  SHAPE("elem", 3000) s.doc("<a>" + rep(r.pick({"&lt;", "&#65;", "&#x4E2D;", "&#x1F600;", "&amp;x"}), n) + "</a>"); END
  SHAPE("elem", 5000) s.doc(rep(r.pick({" ", "\n", "\r\n", "\t"}), n) + "<a/>" + rep(r.pick({" ", "\n", "\r\n", "\t"}), n)); END
  SHAPE("elem", 3000) s.doc("<a" + rep(r.pick({" ", "\n", "\r\n"}), n + 1) + "/>" ); END
  SHAPE("elem", 3000) s.doc("<a>&#" + rep("0", n) + "65;&#x" + rep("0", n) + "41;</a>"); END
  SHAPE("elem", 1500) s.doc("<a>" + rep("]", n) + (r.chance(50) ? " " : "") + (r.chance(30) ? ">" : "") + "</a>"); END
  SHAPE("elem", 1500) s.doc("<a><![CDATA[" + rep("]", n) + "]]></a>"); END
  SHAPE("elem", 1500) s.doc("<a><?p " + rep("?", n) + "?><!--" + rep("- ", n) + "--></a>"); END
  // ---- attributes
  SHAPE("attr", 1500) str a; for (int i = 0; i < n; i++) a += " k" + num(i) + "='" + num(i) + "'"; int m = s.some(); str b; for (int i = 0; i < m; i++) b += " j" + num(i) + "=''"; s.doc("<a><b" + b + "/><b" + a + "/><b" + b + "/></a>"); END
  SHAPE("attr", 5000) s.doc("<a " + s.nm(n, 'k') + "='v' j='" + s.chars(s.some()) + "'/>"); END
  SHAPE("attr", 5000) s.doc("<a j='" + s.chars(s.some()) + "' k=\"" + s.chars(n) + "\" l='" + s.chars(n) + "'/>"); END
  SHAPE("attr", 3000) s.doc("<a k='" + rep(r.pick({"&lt;", "&#65;", "&#x4E2D;", "&#x1F600;", "&#10;", "&amp;x"}), n) + "'/>"); END
  SHAPE("attr", 3000) s.doc("<a k='" + s.nls(n) + "'/>"); END
  SHAPE("attr", 2000) s.dtd("<!ATTLIST a k " + str(r.pick({"NMTOKENS", "NMTOKEN", "IDREFS", "CDATA", "(x|y)"})) + " #IMPLIED>", "<a k='" + rep(" ", n) + "x" + rep(r.pick({" ", "\t", "&#32;"}), n) + "y" + rep(" ", s.some()) + "'/>"); END
  SHAPE("attr", 700) str d; for (int i = 0; i < n; i++) d += " k" + num(i) + " CDATA " + r.pick({"'d'", "#IMPLIED", "'&lt;x'", "#FIXED 'f'"}); str b; int m = s.some(); for (int i = 0; i < m; i++) b += " k" + num(i * 2) + "='s'"; s.dtd("<!ATTLIST a x CDATA 'y'" + d + ">", "<a" + b + "><a/><a" + b + "/></a>"); END
  SHAPE("attr", 1500) str d, b; for (int i = 0; i < n; i++) { d += "<!ATTLIST e" + num(i) + " k CDATA 'd" + num(i) + "'>"; b += "<e" + num(i) + "/>"; } s.dtd(d, "<a>" + b + "</a>"); END
  SHAPE("attr", 2000) s.dtd("<!ATTLIST a k CDATA '" + s.chars(n) + "' l NMTOKENS ' " + rep(" x", n) + "'>", "<a/>"); END
  SHAPE("attr", 1000) str e; for (int i = 0; i < n; i++) e += "|v" + num(i); s.dtd("<!NOTATION v SYSTEM 's'><!ATTLIST a k (v" + e + ") 'v' m NOTATION (v" + e + ") #IMPLIED>", "<a/>"); END
  SHAPE("attr", 2000) s.dtd("<!ATTLIST a k (" + s.nm(n, 'v') + " | " + s.nm(s.some(), 'w') + ") #IMPLIED>", "<a k='  v '/>"); END
  SHAPE("attr", 500) str a; for (int i = 0; i < n; i++) a += " k" + num(i) + "=''"; s.dtd("<!ATTLIST a id ID #IMPLIED>", "<a" + a + " id=' i  j '/>"); END
  SHAPE("attr", 700) str a; for (int i = 0; i < n; i++) a += " k" + num(i) + "=''"; s.doc("<a" + a + " k" + num(n ? r.below(n) : 0) + "='dup'/>"); END
  SHAPE("attr", 300) str d; for (int i = 0; i < n; i++) d += "<!ATTLIST a k" + num(i) + " CDATA 'v'>"; s.extdtd(d, "<a/>"); END
  // ---- namespaces
  SHAPE("ns", 600) str a, b; for (int i = 0; i < n; i++) { a += " xmlns:p" + num(i) + "='u" + num(i) + "'"; b += "<p" + num(i) + ":x/>"; } s.doc("<a" + a + ">" + b + "</a>"); END
  SHAPE("ns", 400) str a, b; int m = 1 + r.below(3); for (int i = 0; i < n; i++) { a += "<p:x xmlns:p='" + rep("u", 1 + (i * 7) % (5 + s.some())) + num(i) + "'>"; b += "</p:x>"; if (i % (m + 3) == 0) { a += "<p:y/>"; } } s.doc("<a>" + a + b + a + b + "</a>"); END
  SHAPE("ns", 3000) str u = s.nm(n, 'u'), l = s.nm(s.some()), u2 = s.nm(s.some(), 'w'); s.doc("<a><p:" + l + " xmlns:p='" + u + "' p:k='v'/><q:" + l + " xmlns:q='" + u2 + "'/><p:" + s.nm(s.some()) + " xmlns:p='" + u + "x'/></a>"); END
  SHAPE("ns", 3000) str l = s.nm(n), u = s.nm(s.some(), 'u'); s.doc("<p:" + l + " xmlns:p='" + u + "' p:" + l + "='v'><p:" + s.nm(s.some()) + ">t</p:" + "zz>"); END
  SHAPE("ns", 3000) str l = s.nm(n), l2 = s.nm(n + 20), u = s.nm(s.some(), 'u'); s.doc("<p:" + l + " xmlns:p='" + u + "'><p:" + l2 + ">" + s.chars(s.some()) + "</p:" + l2 + "></p:" + l + ">"); END
  SHAPE("ns", 500) str a = " xmlns:p='u'"; for (int i = 0; i < n; i++) a += " p:k" + num(i) + "='" + num(i) + "'"; if (r.chance(30) && n) a += " xmlns:q='u' q:k" + num(r.below(n)) + "=''"; s.doc("<a><b" + a + "/><b" + a + "/></a>"); END
  SHAPE("ns", 2000) str p = s.nm(n, 'p'); s.doc("<" + p + ":a xmlns:" + p + "='u' " + p + ":k='v'><" + p + ":b/></" + p + ":a>"); END
  SHAPE("ns", 500) str a, b; for (int i = 0; i < n; i++) { a += r.chance(40) ? "<x xmlns='u" + num(i % 5) + "'>" : r.chance(50) ? "<x xmlns=''>" : "<x>"; b += "</x>"; } s.doc("<a>" + a + "t" + b + "</a>"); END
  SHAPE("ns", 200) str a; for (int i = 0; i < n; i++) a += " xmlns:p" + num(i) + "='" + s.nm(1 + i % 40, 'u') + "'"; if (r.chance(50)) a += " xmlns='dd'"; Doc d; d.sysid = "e"; d.data = "<x/>"; for (int i = 0; i < n; i += 3) d.data += "<p" + num(i) + ":y/>"; s.ext.push_back(d); s.c.handlers |= HB(H_EXT); s.doc("<!DOCTYPE a [<!ENTITY e SYSTEM 'e'>]><a" + a + "><b>&e;</b>&e;</a>"); END
  SHAPE("ns", 300) str d; for (int i = 0; i < n; i++) d += " xmlns:p" + num(i) + " CDATA 'u" + num(i) + "'"; s.dtd("<!ATTLIST a x CDATA 'y'" + d + ">", "<a><a/>" + (n ? "<p" + num(r.below(n)) + ":z/>" : str()) + "</a>"); END
  // ---- declarations
  SHAPE("dtd", 1500) str a, b; int per = 1 + r.below(3); for (int i = 0; i < n; i++) { a += "("; b += str(i % per ? ",y" : "|z") + ")" + r.pick({"", "?", "*", "+"}); } s.dtd("<!ELEMENT a (x" + a + "x" + b + ")>"); END
  SHAPE("dtd", 1500) str a, b; for (int i = 0; i < n; i++) { a += "("; b += ")" + str(r.pick({"", "?", "*", "+"})); } s.dtd("<!ELEMENT a (" + a + "x" + b + ")>"); END
  SHAPE("dtd", 1500) str a, b; int ch = r.below(3); for (int i = 0; i < n; i++) { a += "("; for (int k = 0; k < ch; k++) a += "w|"; b += ")"; } s.dtd("<!ELEMENT a (" + a + "x" + b + ")><!ELEMENT b (" + a + "x" + b + ")>"); END
  SHAPE("dtd", 3000) str e, q = r.pick({"|", ",", " | "}); for (int i = 0; i < n; i++) e += q + "c" + num(i) + r.pick({"", "?", "*", "+"}); s.dtd("<!ELEMENT a (b" + e + ")" + r.pick({"", "*"}) + ">"); END
  SHAPE("dtd", 3000) str e; for (int i = 0; i < n; i++) e += "|c" + num(i); s.dtd("<!ELEMENT a (#PCDATA" + e + ")*>"); END
  SHAPE("dtd", 600) str e; for (int i = 0; i < n; i++) e += "," + str(i % 3 ? "(x|y)" : "z"); s.dtd("<!ELEMENT a (b" + e + ")>"); END
  SHAPE("dtd", 3000) s.dtd("<!ELEMENT a (" + s.nm(n) + ",(" + s.nm(s.some()) + "|" + s.nm(n) + ")*)><!ELEMENT " + s.nm(n) + " EMPTY>"); END
  SHAPE("dtd", 1000) str d; for (int i = 0; i < n; i++) d += "<!ELEMENT e" + num(i) + " " + r.pick({"EMPTY", "ANY", "(#PCDATA)", "(x,y?)"}) + ">"; s.dtd(d); END
  SHAPE("dtd", 1000) str d; for (int i = 0; i < n; i++) d += "<!NOTATION n" + num(i) + " " + r.pick({"SYSTEM 's'", "PUBLIC 'p'", "PUBLIC 'p' 's'"}) + ">"; s.dtd(d); END
  SHAPE("dtd", 1500) str d; for (int i = 0; i < n; i++) d += "<!ENTITY e" + num(i) + " '" + num(i) + "'>"; s.dtd(d, "<a>" + (n ? "&e" + num(r.below(n)) + ";" : str()) + "</a>"); END
  SHAPE("dtd", 1500) str d; for (int i = 0; i < n; i++) d += "<!ENTITY % e" + num(i) + " '<!--" + num(i) + "-->'>"; if (n) d += "%e" + num(r.below(n)) + ";"; s.dtd(d); END
  SHAPE("dtd", 4000) s.dtd("<!NOTATION n SYSTEM '" + s.nm(n, 's') + "'><!NOTATION m PUBLIC '" + rep(r.pick({"p", " p", "p ", "  "}), n) + "' '" + s.nm(s.some()) + "'><!ENTITY e SYSTEM '" + s.nm(n, 's') + "'><!ENTITY f PUBLIC '" + rep("q ", n) + "' 'z' NDATA n>"); END
  SHAPE("dtd", 4000) s.doc("<!DOCTYPE " + s.nm(n) + " " + (r.chance(50) ? "SYSTEM '" + s.nm(n, 's') + "'" : "PUBLIC '" + rep(" p", n) + "' '" + s.nm(s.some(), 's') + "'") + ">" + "<a/>"); END
  SHAPE("dtd", 3000) s.doc("<!DOCTYPE " + s.nm(n) + rep(" ", n) + "[" + rep(r.pick({" ", "\n", "\r\n"}), n) + "]" + rep(" ", s.some()) + "><a/>"); END
  SHAPE("dtd", 4000) s.dtd("<!ENTITY e '" + s.chars(n) + "'><!ENTITY f \"" + s.chars(n) + "&#65;" + s.chars(s.some()) + "\"><!ENTITY % g '" + s.nls(n / 4) + "'>"); END
  SHAPE("dtd", 2000) s.dtd("<!ENTITY e '" + rep(r.pick({"&#65;", "&#x4E2D;", "&#x1F600;", "&x;", "&lt;"}), n) + "'>"); END
  SHAPE("dtd", 3000) s.dtd("<!--" + s.chars(n) + "--><?" + s.nm(n) + " " + s.chars(n) + "?>"); END
  SHAPE("dtd", 600) str a, b; for (int i = 0; i < n; i++) { a += "<![INCLUDE["; b += "]]>"; } s.extdtd(a + "<!ENTITY e 'v'>" + b, "<a>&e;</a>"); END
  SHAPE("dtd", 3000) s.extdtd("<![IGNORE[" + s.chars(n) + (r.chance(50) ? rep("<![", s.some() % 9) : str()) + "]]><!ELEMENT a ANY>"); END
  SHAPE("dtd", 800) str a, b; for (int i = 0; i < n; i++) { a += "<!["; b += "]]>"; } s.extdtd("<![IGNORE[" + a + "x" + b + "]]><!ELEMENT a ANY>"); END
  SHAPE("dtd", 1000) str a; for (int i = 0; i < n; i++) a += "<!ENTITY % i" + num(i) + " '" + (i % 2 ? "IN" : "") + "'>"; s.extdtd("<!ENTITY % inc 'INCLUDE'>" + a + "<![%inc;[<!ELEMENT a " + rep(" ", n) + "ANY>]]>"); END
  SHAPE("dtd", 3000) s.doc("<?xml version='1.0' encoding='" + rep("x", n) + "'?><a/>"); END
  SHAPE("dtd", 3000) s.doc("<?xml version='1." + rep("0", n) + "'?><a/>"); END
  // ---- entities
  SHAPE("ent", 260) str d = "<!ENTITY e0 'v'>"; for (int i = 1; i <= n; i++) d += "<!ENTITY e" + num(i) + " '" + (r.chance(20) ? "x" : "") + "&e" + num(i - 1) + ";" + (r.chance(20) ? "<y/>" : "") + "'>"; s.dtd(d, "<a>&e" + num(n) + ";.&e" + num(n) + ";</a>"); END
  SHAPE("ent", 260) str d = "<!ENTITY e0 'v'>"; for (int i = 1; i <= n; i++) d += "<!ENTITY e" + num(i) + " 'x&e" + num(i - 1) + ";'>"; s.dtd(d + "<!ATTLIST a k CDATA '&e" + num(n) + ";'>", "<a><a k='&e" + num(n) + ";'/></a>"); END
  SHAPE("ent", 1500) s.dtd("<!ENTITY e '" + s.chars(s.some()) + "'>", "<a k='" + rep("&e;", n % 300) + "'>" + rep("&e;", n) + "</a>"); END
  SHAPE("ent", 4000) s.dtd("<!ENTITY e '" + s.chars(n) + "'>", "<a k='&e;'>&e;" + s.chars(s.some()) + "&e;</a>"); END
  SHAPE("ent", 800) str a, b; for (int i = 0; i < n; i++) { a += "<x>"; b += "</x>"; } s.dtd("<!ENTITY e '" + a + s.chars(s.some()) + b + "'>", "<a>&e;</a>"); END
  SHAPE("ent", 400) str a; for (int i = 0; i < n; i++) a += " k" + num(i) + "=\"&#60;\""; s.dtd("<!ENTITY e '<x" + a + "/>'>", "<a>&e;</a>"); END
  SHAPE("ent", 4000) str e = s.nm(n, 'e'); s.dtd("<!ENTITY " + e + " 'v'>", "<a k='&" + e + ";'>&" + e + ";</a>"); END
  SHAPE("ent", 4000) str e = s.nm(n, 'e'); s.doc("<!DOCTYPE a SYSTEM 'd'><a k='&" + e + ";'>&" + e + ";</a>"); END
  SHAPE("ent", 60) Doc d; d.sysid = "x"; d.data = s.chars(s.some()) + "<b/>"; s.ext.push_back(d); s.c.handlers |= HB(H_EXT); s.dtd("<!ENTITY e SYSTEM 'x'>", "<a>" + rep("&e;", n) + "</a>"); END
  SHAPE("ent", 4000) Doc d; d.sysid = "x"; d.data = (r.chance(50) ? "<?xml encoding='UTF-8'?>" : "") + s.chars(n) + "<b/>" + s.chars(s.some()); s.ext.push_back(d); s.c.handlers |= HB(H_EXT); s.dtd("<!ENTITY e SYSTEM 'x'>", "<a>t&e;u</a>"); END
  SHAPE("ent", 150) str d = "<!ENTITY % p0 '<!ELEMENT a ANY>'>"; for (int i = 1; i <= n; i++) d += "<!ENTITY % p" + num(i) + " '" + (r.chance(30) ? " " : "") + "&#37;p" + num(i - 1) + ";'>"; s.dtd(d + "%p" + num(n) + ";"); s.c.pe = 1 + r.below(2); END
  SHAPE("ent", 150) str d = "<!ENTITY % p0 'v'>"; for (int i = 1; i <= n; i++) d += "<!ENTITY % p" + num(i) + " 'x%p" + num(i - 1) + ";'>"; s.extdtd(d + "<!ENTITY e '%p" + num(n) + ";'>", "<a>&e;</a>"); END
  SHAPE("ent", 1000) s.extdtd("<!ENTITY % p '" + s.chars(s.some()) + "'><!ENTITY e '" + rep("%p;", n) + "'>", "<a>&e;</a>"); END
  SHAPE("ent", 2000) s.extdtd("<!ENTITY % p '" + s.chars(n) + "'><!ENTITY e '" + s.chars(s.some()) + "%p;" + s.chars(s.some()) + "'>", "<a>&e;</a>"); END
  SHAPE("ent", 500) str d; for (int i = 0; i < n; i++) d += "<!ENTITY e" + num(i) + " 'v" + num(i) + "'>"; Doc x; x.sysid = "x"; x.data = ""; for (int i = 0; i < n; i += 5) x.data += "&e" + num(i) + ";"; s.ext.push_back(x); s.c.handlers |= HB(H_EXT); s.dtd(d + "<!ENTITY x SYSTEM 'x'>", "<a>&x;" + (n ? "&e0;" : str()) + "</a>"); END
  SHAPE("ent", 300) str d; for (int i = 0; i < n; i++) d += "<!ENTITY % q" + num(i) + " ' '>"; s.extdtd(d + "<!ELEMENT a " + (n ? "%q" + num(r.below(n)) + ";" : str()) + "ANY>"); END
};

static std::vector<int> sizes() {
  std::vector<int> v; for (int i = 0; i <= 70; i++) v.push_back(i);
  for (int b : {96, 128, 192, 256, 341, 384, 512, 682, 768, 1024, 1365, 1536, 2048, 3072, 4096}) for (int d = b >= 1024 ? -3 : -2; d <= 2; d++) v.push_back(b + d);
  return v;
}
static void gen(Rng &r, uint64_t idx, Case &c, const char *group, int mode) {
  static const std::vector<int> N = sizes(); static std::map<str, std::vector<const Shape *>> by;
  auto &v = by[group ? group : ""]; if (v.empty()) for (auto &s : SHAPES) if (!group || !strcmp(s.group, group)) v.push_back(&s);
  uint64_t all = v.size() * N.size(), k = (idx * 7919 + r.below(1) + (idx / all) * 31) % all;   // 7919 is prime: a permutation of all (shape, size) pairs
  const Shape &s = *v[k % v.size()]; int n = N[(k / v.size()) % N.size()]; if (n > s.max) n = r.below(s.max + 1);
  common_cfg(r, c); if (group && !strcmp(group, "ns") && !c.ns) c.ns = 1 + r.below(2); c.foreign = 0; if (c.ns == 2 && c.sep.empty()) c.sep = "|";
  if (mode == 1) { c.handlers = HB(H_DEFAULT) | (r.chance(50) ? HB(H_DEFEXPAND) : 0); if (r.chance(30)) c.handlers |= HB(r.below(H_N)); }
  else if (mode == 2) { int h = r.below(4); if (h == 0) c.handlers = H_ALL; else if (h == 1) { c.handlers = HB(H_EXT) | HB(H_UNKENC); for (int i = 0; i < 6; i++) c.handlers |= HB(r.below(H_N)); } }
  else if (mode == 3) c.flags |= F_INCTX;
  if (mode == 0 && r.chance(40)) c.flags &= ~F_POS;
  Sh sh{r, n, c}; s.f(sh); c.note = str(s.group) + " shape " + num(&s - SHAPES) + " size " + num(n);
  for (auto &d : c.docs) {
    if (r.chance(35)) { str o, e = r.pick({"UTF-16LE", "UTF-16BE", "ISO-8859-1", "x-mb2", "x-mb3", "x-sb1"}); bool w = e[4] == '1'; if (d.data.compare(0, 5, "<?xml") != 0 && transcode(d.data, e, o, w)) { d.data = o; if (!w) d.enc = e; } }
    switch (r.below(8)) {
      case 0: case 1: case 2: break;
      case 3: d.mode = 1; break;
      case 4: if (d.data.size() < 3000) { d.chunks.assign(d.data.size(), 1); d.mode = r.below(8); break; }   // fallthrough
      case 5: d.chunks = gen_chunks(r, d.data.size(), 2); d.mode = r.below(16); break;
      case 6: { int p = 1 << r.range(3, 11); for (size_t at = 0; at < d.data.size(); at += p) d.chunks.push_back(p); d.mode = r.below(8); break; }
      default: d.chunks = gen_chunks(r, d.data.size(), 5); d.mode = r.below(16); break;
    }
  }
  if (c.handlers & HB(H_EXT) && r.chance(10)) c.flags |= F_CTORENC;
  (void)cut;
}
__attribute__((constructor)) static void reg() {
  auto g = [](const char *grp, int mode) { return [grp, mode](Rng &r, uint64_t i, Case &c) { gen(r, i, c, grp, mode); }; };
  add("scale-elem", g("elem", 0), check_diff); add("scale-ns", g("ns", 0), check_diff); add("scale-attr", g("attr", 0), check_diff);
  add("scale-dtd", g("dtd", 0), check_diff); add("scale-ent", g("ent", 0), check_diff);
  add("scale-def", g(nullptr, 1), check_diff); add("scale-mem", g(nullptr, 2), check_diff); add("scale-pos", g(nullptr, 3), check_diff);
}
