#include "gen.h"
#include "run.h"
#include <algorithm>
#include <cstring>
void utf8_put(std::string &o, uint32_t c) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
bool utf8_decode(const std::string &s, std::vector<uint32_t> &cp) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i]; uint32_t u; int n;
    if (c < 0x80) { u = c; n = 1; } else if (c >= 0xC2 && c < 0xE0) { u = c & 31; n = 2; } else if (c >= 0xE0 && c < 0xF0) { u = c & 15; n = 3; } else if (c >= 0xF0 && c < 0xF5) { u = c & 7; n = 4; } else return false;
    if (i + n > s.size()) return false;
    for (int k = 1; k < n; k++) { if (((unsigned char)s[i + k] & 0xC0) != 0x80) return false; u = u << 6 | (s[i + k] & 63); }
    if ((n == 3 && u < 0x800) || (n == 4 && (u < 0x10000 || u > 0x10FFFF)) || (u >= 0xD800 && u < 0xE000)) return false;
    cp.push_back(u); i += n;
  }
  return true;
}
bool transcode(const std::string &u8, const std::string &enc, std::string &out, bool bom) {
  std::vector<uint32_t> cp; out.clear();
  if (!utf8_decode(u8, cp)) return false;
  if (enc == "UTF-8") { if (bom) out = "\xEF\xBB\xBF"; out += u8; return true; }
  if (enc == "UTF-16LE" || enc == "UTF-16BE") {
    bool le = enc == "UTF-16LE";
    auto put = [&](uint32_t u) { if (le) { out += (char)(u & 255); out += (char)(u >> 8); } else { out += (char)(u >> 8); out += (char)(u & 255); } };
    if (bom) put(0xFEFF);
    for (uint32_t u : cp) { if (u >= 0x10000) { put(0xD800 + ((u - 0x10000) >> 10)); put(0xDC00 + ((u - 0x10000) & 1023)); } else put(u); }
    return true;
  }
  if (enc == "ISO-8859-1" || enc == "US-ASCII") {
    uint32_t lim = enc == "US-ASCII" ? 0x80 : 0x100;
    for (uint32_t u : cp) { if (u >= lim) return false; out += (char)u; }
    return true;
  }
  static thread_local std::map<std::string, std::map<uint32_t, std::string>> cache;
  auto f = cache.find(enc);
  if (f == cache.end()) {
  std::vector<int> map; if (!enc_decode_table(enc, map).empty()) return false;
  std::map<uint32_t, std::string> inv; XML_Encoding e; UE rl; memset(&e, 0, sizeof e); unknown_encoding(enc, &e, &rl);
  for (int b = 0; b < 256; b++) {
    if (map[b] >= 0) { if (!inv.count(map[b])) inv[map[b]] = std::string(1, (char)b); continue; }
    int n = -map[b]; if (n < 2 || n > 4 || !e.convert) continue;
    for (int k = 0; k < 4096; k++) {
      char buf[5] = {(char)b, 0, 0, 0, 0};
      if (n == 2) { if (k >= 64) break; buf[1] = (char)(0x80 + k); }
      else if (n == 3) { buf[1] = (char)(0x80 + k / 64); buf[2] = (char)(0x80 + k % 64); }
      else { buf[1] = (char)(0x80 + k / 256 % 16); buf[2] = (char)(0x80 + k / 16 % 16); buf[3] = (char)(0x80 + k % 16); }
      int u = e.convert(e.data, buf);
      if (u >= 0x80 && !inv.count(u)) inv[u] = std::string(buf, n);
    }
  }
    f = cache.emplace(enc, inv).first;
  }
  auto &inv = f->second;
  for (uint32_t u : cp) { auto it = inv.find(u); if (it == inv.end()) return false; out += it->second; }
  return true;
}

static const char *const MB[] = {"\xC3\xA9", "\xC3\x9F", "\xD0\x96", "\xCE\xB1", "\xE4\xB8\xAD", "\xE3\x81\x82", "\xEA\xB0\x80", "\xE2\x82\xAC", "\xC2\xA0", "\xF0\x9F\x98\x80", "\xF4\x8F\xBF\xBD", "\xEF\xBF\xBD", "\xC2\x85", "\xE2\x80\xA8", "\xF0\x90\x80\x80", "\xED\x9F\xBF", "\xEE\x80\x80"};
static const char *const MBN[] = {"\xC3\xA9", "\xC3\x9F", "\xD0\x96", "\xCE\xB1", "\xE4\xB8\xAD", "\xE3\x81\x82", "\xEA\xB0\x80", "\xC3\x80", "\xC4\x80", "\xE0\xA4\x85"};
static const char *const ASCIIN[] = {"a", "b", "c", "doc", "item", "x", "y", "foo", "A", "z9", "_n", "a-b", "a.b", "x_y", "ab", "abc", "abcd", "xm", "xmll", "id", "e", "long-name-17chars"};

std::string Gen::S(bool must) {
  std::string s; if (must) s = r.chance(85) ? " " : r.pick({"\n", "\t", "\r\n", "\r"});
  if (r.chance(o.ws / 4)) { int n = r.range(1, 3); while (n--) s += r.pick({" ", "\n", "\t", "\r\n", "\r", "  "}); }
  return s;
}
std::string Gen::longname() {
  static const int L[] = {15, 16, 17, 31, 32, 33, 63, 64, 70, 127, 128, 200, 255, 256, 257, 500, 1020, 1023, 1024, 1025, 1030, 2047, 2048, 2100, 4000};
  int n = L[r.below(r.chance(80) ? 14 : 25)]; std::string s = "L";
  while ((int)s.size() < n) { if (r.chance(o.multibyte / 3)) s += r.pick(MBN); else s += (char)('a' + r.below(26)); }
  return s;
}
std::string Gen::name() {
  if (r.chance(o.longtok)) return longname();
  std::string s;
  if (r.chance(o.multibyte)) { s = r.pick(MBN); if (r.chance(50)) s += r.pick(ASCIIN); if (r.chance(30)) s += r.pick(MBN); return s; }
  s = r.pick(ASCIIN); if (r.chance(10)) s += r.pick(ASCIIN); if (r.chance(8)) s += std::to_string(r.below(100));
  return s;
}
std::string Gen::qname(bool attr) {
  std::string n = r.chance(70) && !(attr ? attNames : elemNames).empty() ? r.pick(attr ? attNames : elemNames) : name();
  if (o.ns) {
    if (r.chance(attr ? 35 : 40)) {
      std::vector<std::string> v; for (auto &s : nsScope) for (auto &p : s) if (!p.empty()) v.push_back(p);
      if (!v.empty() && r.chance(96)) return r.pick(v) + ":" + n;
      if (r.chance(10)) return "xml:" + n;
      if (r.chance(3)) return name() + ":" + n;
    }
  } else if (r.chance(4)) return std::string(r.pick({"p", "q", "xml", "xmlns", ""})) + ":" + n;
  return n;
}
std::string Gen::nl() { return r.pick({"\n", "\r\n", "\r", "\n\n", "\r\r", "\r\n\r", "\n\r"}); }
std::string Gen::text(int n, bool cd) {
  std::string s;
  for (int i = 0; i < n; i++) {
    int k = r.below(100);
    if (k < o.multibyte) s += r.pick(MB);
    else if (k < o.multibyte + o.nl / 2) s += nl();
    else if (k < 70) s += r.pick({"hello", "a", " ", "b c", "x", "1", "lorem ipsum", ".", "&#", "\t"});
    else if (k < 74) s += r.pick({"]", "]]", "]>", ">", "'", "\"", "--", "?>", "/", "=", "]] >"});
    else s += r.pick({"w", "text", "qq", "-", "?", "!", "%", ";", "#", "()", "|", "*", "+", ",", "@"});
  }
  (void)cd;
  // keep markup-significant characters out of plain text
  if (!cd) { std::string t; for (char c : s) { if (c == '&' || c == '<') t += '.'; else t += c; } s = t; size_t p; while ((p = s.find("]]>")) != std::string::npos) s[p + 2] = '.'; }
  return s;
}
std::string Gen::ref(bool attr) {
  int k = r.below(100);
  if (k < 30) return r.pick({"&lt;", "&gt;", "&amp;", "&quot;", "&apos;"});
  if (k < 55) { static const char *const c[] = {"&#65;", "&#x41;", "&#10;", "&#13;", "&#9;", "&#32;", "&#x20;", "&#xE9;", "&#233;", "&#x4E2D;", "&#x1F600;", "&#x10FFFD;", "&#60;", "&#38;", "&#x26;", "&#128;", "&#xD7FF;", "&#xFFFD;", "&#0000065;", "&#x00041;"}; return r.pick(c); }
  if (k < 60 && r.chance(30)) return r.pick({"&#0;", "&#xD800;", "&#x110000;", "&#xFFFE;", "&#1;", "&#xFFFF;", "&#99999999999;", "&#xFFFFFFFFFF;"});
  if (!allowRefs) return "&amp;";
  if (r.chance(o.undeclared)) return "&" + name() + ";";
  if (!attr && !extEnts.empty() && r.chance(30)) return "&" + r.pick(extEnts) + ";";
  if (attr && !extEnts.empty() && r.chance(2)) return "&" + r.pick(extEnts) + ";";
  if (!unparsedEnts.empty() && r.chance(2)) return "&" + r.pick(unparsedEnts) + ";";
  if (!genEnts.empty()) return "&" + r.pick(genEnts) + ";";
  return "&lt;";
}
std::string Gen::attval(char q, bool dflt) {
  std::string s; int n = r.below(5);
  if (r.chance(o.longtok)) n += 60 + r.below(300);
  for (int i = 0; i < n; i++) {
    if (r.chance(o.ents / 2)) { s += ref(true); continue; }
    if (r.chance(12)) { s += r.pick({" ", "  ", "\t", "\n", "\r\n", "\r", " \n "}); continue; }
    std::string t = text(1); for (char &c : t) if (c == q || c == '<' || c == '&') c = '_';
    s += t;
  }
  (void)dflt; return s;
}
std::string Gen::attrs(const std::string &elem) {
  std::string s; std::vector<std::string> used; int n = r.below(o.attrs + 1); (void)elem;
  if (r.chance(3)) n += 8 + r.below(30);
  if (o.ns) {
    nsScope.push_back({});
    int k = r.chance(45) ? r.range(1, 2) : 0;
    while (k--) {
      static const char *const P[] = {"p", "q", "p", "q", "pp", "n1", "\xC3\xA9p", "p", "q", "xm", "xml-a", "xmln", "xmlx", "xmlnsx"}; static const char *const U[] = {"http://a", "http://b", "urn:x", "http://a", "u", "http://example.org/a/rather/long/namespace/name", "http://www.w3.org/XML/1998/namespac", "\xC3\xA9", "http://a", "u", "http://www.w3.org/XML/1998/namespace/", "http://www.w3.org/2000/xmlns", "http://www.w3.org/2000/xmlns/x"};
      std::string pre = r.chance(30) ? "" : r.pick(P), uri = r.chance(10) ? "" : r.pick(U);
      if (r.chance(o.longtok)) uri += longname();
      if (pre.size() && r.chance(97) && uri.empty()) uri = "urn:y";
      if (r.chance(2)) { pre = r.pick({"xml", "xmlns"}); uri = r.pick({"http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/", "urn:z"}); }
      if (r.chance(1)) uri = r.pick({"http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/"});
      std::string an = pre.empty() ? "xmlns" : "xmlns:" + pre;
      if (std::find(used.begin(), used.end(), an) != used.end()) continue;
      used.push_back(an); nsScope.back().push_back(pre);
      char q = r.chance(80) ? '"' : '\'';
      s += S() + an + S(false) + "=" + S(false) + q + uri + q;
    }
  }
  for (int i = 0; i < n; i++) {
    std::string a = qname(true);
    if (std::find(used.begin(), used.end(), a) != used.end() && !r.chance(o.dupattr)) continue;
    used.push_back(a); char q = r.chance(80) ? '"' : '\'';
    s += S() + a + (r.chance(o.ws / 5) ? S() : "") + "=" + (r.chance(o.ws / 5) ? S() : "") + q + attval(q) + q;
  }
  if (r.chance(o.ws / 4)) s += S();
  return s;
}
std::string Gen::comment() { std::string t = text(r.below(4), true); for (size_t i = 0; i + 1 < t.size(); i++) if (t[i] == '-' && t[i + 1] == '-') t[i + 1] = '+'; if (!t.empty() && t.back() == '-') t += ' '; return "<!--" + t + "-->"; }
std::string Gen::pi() { std::string n = name(); if (n.size() == 3 && strcasecmp(n.c_str(), "xml") == 0) n = "q"; std::string t = text(r.below(4), true); size_t p; while ((p = t.find("?>")) != std::string::npos) t[p] = '.'; if (r.chance(20)) return "<?" + n + "?>"; return "<?" + n + S() + t + "?>"; }
std::string Gen::cdata() { std::string t = text(r.below(5), true); size_t p; while ((p = t.find("]]>")) != std::string::npos) t[p + 2] = '.'; if (r.chance(30)) t += r.pick({"<a>", "&amp;", "<![CDATA[", "]", "]]"}); return "<![CDATA[" + t + "]]>"; }
std::string Gen::misc() { std::string s; int n = r.below(3); while (n--) { s += S(false); if (r.chance(o.comments)) s += comment(); else if (r.chance(o.pis)) s += pi(); else if (r.chance(30)) s += nl(); } return s; }
std::string Gen::content(int depth) {
  std::string s; int n = r.below(6);
  for (int i = 0; i < n; i++) {
    int k = r.below(100);
    if (k < 35 && elemsLeft > 0 && depth < o.depth) s += element(depth + 1);
    else if (r.chance(o.ents)) s += ref(false);
    else if (r.chance(o.cdata)) s += cdata();
    else if (r.chance(o.comments)) s += comment();
    else if (r.chance(o.pis)) s += pi();
    else if (r.chance(o.longtok)) s += text(100 + r.below(600));
    else s += text(r.range(1, 4));
  }
  return s;
}
std::string Gen::element(int depth) {
  elemsLeft--; size_t sc = nsScope.size();
  // the element name may use prefixes its own attributes declare
  std::string a = attrs(""); std::string n = qname(false);
  if (!declAtts.empty() && r.chance(20)) {   // an element and attribute of a declaration, its prefixes bound
    auto d = r.pick(declAtts); auto has = [&](const std::string &x) { return (" " + a).find(x + "=") != std::string::npos; };
    if (r.chance(90)) n = d.first;
    if (!has(d.second)) { char q = r.chance(80) ? '"' : '\''; a += " " + d.second + "=" + q + (r.chance(50) ? " " + attval(q) + "  x\t " : attval(q)) + q; }
    if (o.ns) for (auto &x : {n, d.second}) { size_t c = x.find(':'); if (c == std::string::npos || !c) continue; std::string pre = x.substr(0, c); if (pre.compare(0, 3, "xml") && r.chance(80) && !has("xmlns:" + pre)) a += " xmlns:" + pre + "='http://a'"; }
  }
  std::string s = "<" + n + a;
  if (r.chance(30)) s += "/>";
  else { s += ">" + content(depth) + "</" + n + (r.chance(o.ws / 6) ? S() : "") + ">"; }
  nsScope.resize(sc); return s;
}
std::string Gen::xmldecl(bool txt) {
  std::string s = "<?xml"; char q = r.chance(75) ? '"' : '\'';
  if (!txt || r.chance(50)) s += S() + "version" + (r.chance(5) ? " = " : "=") + q + (r.chance(96) ? "1.0" : r.pick({"1.1", "1.x", "2.0"})) + q;
  if (txt || r.chance(50) || !encName.empty()) if (!(encName == "-")) s += S() + "encoding" + (r.chance(5) ? " = " : "=") + q + (encName.empty() ? (r.chance(70) ? "UTF-8" : "utf-8") : encName) + q;
  if (!txt && r.chance(o.standalone)) s += S() + "standalone=" + q + (r.chance(50) ? "yes" : "no") + q;
  if (r.chance(10)) s += S();
  return s + "?>";
}
std::string Gen::pubid() { return r.pick({"-//X//Y//EN", "pub", "a  b", " lead trail ", "a\nb", "A-Za-z0-9'()+,./:=?;!*#@$_%", ""}); }
std::string Gen::extid(const std::string &sys, bool pubOnly) {
  char q = r.chance(80) ? '"' : '\'';
  if (r.chance(30)) { std::string p = pubid(); char pq = p.find('\'') != std::string::npos ? '"' : q; if (pubOnly && r.chance(40)) return "PUBLIC" + S() + pq + p + pq; return "PUBLIC" + S() + pq + p + pq + S() + q + sys + q; }
  return "SYSTEM" + S() + q + sys + q;
}
std::string Gen::cm(int d) {
  static const char *const Q[] = {"", "", "?", "*", "+"};
  auto nm = [&] { return r.chance(60) && !elemNames.empty() ? r.pick(elemNames) : name(); };
  if (d > 0 && r.chance(55)) return nm() + r.pick(Q);
  bool seq = r.chance(50); int n = r.range(1, 4); std::string s = "(" + S(false);
  for (int i = 0; i < n; i++) { if (i) s += S(false) + (seq ? "," : "|") + S(false); s += d < 4 ? cm(d + 1) : nm(); }
  return s + S(false) + ")" + r.pick(Q);
}
std::string Gen::elemdecl() {
  std::string n = r.chance(70) && !elemNames.empty() ? r.pick(elemNames) : name(), m; int k = r.below(10);
  if (k < 1) m = "EMPTY"; else if (k < 2) m = "ANY"; else if (k < 3) m = r.chance(50) ? "(#PCDATA)" : "(#PCDATA)*";
  else if (k < 5) { m = "(" + S(false) + "#PCDATA"; int c = r.range(1, 4); while (c--) m += S(false) + "|" + S(false) + (elemNames.empty() ? name() : r.pick(elemNames)); m += S(false) + ")*"; }
  else m = cm(0);
  return "<!ELEMENT" + S() + n + S() + m + S(false) + ">";
}
std::string Gen::attlist() {
  std::string n = r.chance(80) && !elemNames.empty() ? r.pick(elemNames) : name(); if (o.ns && r.chance(15)) n = "p:" + n;
  std::string s = "<!ATTLIST" + S() + n; int k = r.range(0, 4);
  while (k--) {
    std::string a = r.chance(75) && !attNames.empty() ? r.pick(attNames) : name(); 
    if (o.ns) { if (r.chance(20)) a = std::string(r.pick({"p:", "q:", "xml:"})) + a; else if (r.chance(12)) a = r.pick({"xmlns", "xmlns:p", "xmlns:q"}); }
    else if (r.chance(3)) a = "xml:space";
    std::string t; int v = r.below(12);
    if (v < 4) t = "CDATA"; else if (v < 5) t = "ID"; else if (v < 6) t = r.pick({"IDREF", "IDREFS"}); else if (v < 7) t = r.pick({"ENTITY", "ENTITIES"}); else if (v < 9) t = r.pick({"NMTOKEN", "NMTOKENS"});
    else if (v < 11) { t = "(" + S(false); int c = r.range(1, 4); for (int i = 0; i < c; i++) { if (i) t += S(false) + "|" + S(false); t += r.chance(20) ? "1a" : name(); } t += S(false) + ")"; }
    else { t = "NOTATION" + S() + "(" + S(false) + (notNames.empty() ? "n1" : r.pick(notNames)); if (r.chance(40)) t += "|n2"; t += ")"; }
    int dft = r.below(10); char q = r.chance(80) ? '"' : '\''; std::string dv;
    if (dft < 3) dv = "#IMPLIED"; else if (dft < 4) dv = "#REQUIRED"; else { if (dft < 6) dv = "#FIXED" + S(); std::string val = a.compare(0, 5, "xmlns") == 0 ? r.pick({"urn:d", "http://a", "http://b"}) : attval(q, true); dv += q + val + q; }
    s += S() + a + S() + t + S() + dv; if (a.compare(0, 5, "xmlns")) declAtts.push_back({n, a});
  }
  return s + S(false) + ">";
}
std::string Gen::entval(bool external) {
  int k = r.below(10); bool sv = inEntity; inEntity = true; std::string s;
  if (k < 4) s = text(r.range(0, 3));
  else if (k < 6) { int e = elemsLeft; elemsLeft = 2; s = content(o.depth - 1); elemsLeft = e; }
  else if (k < 7) { int e = elemsLeft; elemsLeft = 2; s = element(o.depth - 1); elemsLeft = e; }
  else if (k < 8) s = std::string("&#60;") + "a/>" + ref(true);
  else if (k < 9) s = ref(false) + text(1) + ref(false);
  else { static const char *const c[] = {"<a>", "</a>", "<a", "&#38;lt;", "&#38;#60;", "&#37;", "<![CDATA[x]]>", "<!--c-->", "<?p d?>", "]]>", "&#13;&#10;", "a&#x20;b", "<b x='&lt;'/>", "<a>&amp;</a>x", "&", "<b></b><b/>", "&#x26;#38;"}; s = r.pick(c); }
  if (external && !peEnts.empty() && r.chance(20)) s += "%" + r.pick(peEnts) + ";";
  inEntity = sv; for (char &c : s) if (c == '%' && !external) c = '/';
  std::string t; for (char c : s) { if (c == '"') t += '\''; else t += c; } 
  return t;
}
std::string Gen::entity(bool external) {
  bool pe = r.chance(o.pe); char q = '"'; std::string n = name();
  std::string s = "<!ENTITY" + S();
  if (pe) {
    s += "%" + S() + n + S();
    if (r.chance(o.ext)) {
      std::string sys = "pe" + std::to_string(extDocs.size()) + ".ent"; s += extid(sys);
      Doc d; d.sysid = sys; d.behave = r.chance(92) ? 0 : r.range(1, 3); if (extDocs.size() < 5) { extDocs.push_back(d); size_t i = extDocs.size() - 1; std::string t = (r.chance(30) ? xmldecl(true) : "") + decls(true, r.range(0, 3)); extDocs[i].data = t; }
    } else {
      int k = r.below(13); std::string v;
      if (k < 3) v = "";
      else if (k >= 10) {   // whole declarations, every delimiter escaped, so that they take effect when the entity is referenced
        int save = o.recursive; o.recursive = 0; std::string d = decls(false, r.range(1, 2)); o.recursive = save;
        for (char ch : d) { if (ch == '%') v += "&#37;"; else if (ch == '&') v += "&#38;"; else if (ch == '"') v += "&#34;"; else v += ch; }
        s += q + v + q + S(false) + ">"; peEnts.push_back(n); return s;
      }
      else if (k < 6) { bool b = r.chance(50); v = b ? elemdecl() : "<!ENTITY z" + std::to_string(r.below(9)) + " 'zz'>"; if (!b) genEnts.push_back(v.substr(9, 2)); for (char &c : v) if (c == '"') c = '\''; for (char &c : v) if (c == '%' || c == '&') c = '_'; }
      else if (k < 7) v = r.pick({"INCLUDE", "IGNORE"}); else if (k < 8) v = "#PCDATA"; else if (k < 9) v = "a|b"; else v = text(1);
      for (char &c : v) if (c == '%' || c == '"') c = '/';
      s += q + v + q;
    }
    s += S(false) + ">"; peEnts.push_back(n); return s;
  }
  s += n + S();
  if (r.chance(o.ext)) {
    std::string sys = "e" + std::to_string(extDocs.size()) + ".xml"; s += extid(sys);
    if (r.chance(15)) { s += S() + "NDATA" + S() + (notNames.empty() ? "n1" : r.pick(notNames)); unparsedEnts.push_back(n); return s + S(false) + ">"; }
    Doc d; d.sysid = sys; d.behave = r.chance(92) ? 0 : r.range(1, 3);
    if (extDocs.size() < 5) { extDocs.push_back(d); size_t i = extDocs.size() - 1; int e = elemsLeft; elemsLeft = 3; std::string t = (r.chance(40) ? xmldecl(true) : "") + content(o.depth - 2); elemsLeft = e; if (r.chance(10)) t += r.pick({"]", "]]", "]]", "\r", "\xC3\xA9]", "]\xC3\xA9", "\r]", "]]]"}); if (r.chance(o.bom)) { t = "\xEF\xBB\xBF" + t; if (r.chance(25)) t = "\xEF\xBB\xBF" + t; } extDocs[i].data = t; }
    extEnts.push_back(n); return s + S(false) + ">";
  }
  if (r.chance(o.recursive)) { std::string v = r.chance(50) ? "&" + n + ";" : "x&" + (genEnts.empty() ? n : r.pick(genEnts)) + ";&later;"; genEnts.push_back(n); if (r.chance(50)) genEnts.push_back("later"); return s + q + v + q + ">"; }
  std::string v = entval(external);
  genEnts.push_back(n);
  return s + q + v + q + S(false) + ">";
}
std::string Gen::notation() { std::string n = r.chance(60) ? r.pick({"n1", "n2"}) : name(); notNames.push_back(n); return "<!NOTATION" + S() + n + S() + extid("not.sys", true) + S(false) + ">"; }
std::string Gen::decls(bool external, int n) {
  std::string s;
  while (n-- > 0) {
    s += S(false);
    int k = r.below(100);
    if (r.chance(o.attlist / 2)) s += attlist();
    else if (r.chance(o.elemdecl / 2)) s += elemdecl();
    else if (r.chance(o.notation)) s += notation();
    else if (r.chance(o.comments)) s += comment();
    else if (r.chance(o.pis)) s += pi();
    else if (!peEnts.empty() && r.chance(o.pe)) s += "%" + r.pick(peEnts) + ";";
    else if (r.chance(o.pe / 5) && r.chance(std::min(60, o.undeclared * (external ? 12 : 4)))) s += "%undef;";
    else if (external && k < 15) { std::string kw = r.chance(30) && !peEnts.empty() ? "%" + r.pick(peEnts) + ";" : r.pick({"INCLUDE", "IGNORE"}); s += "<![" + S(false) + kw + S(false) + "[" + (r.chance(70) ? decls(true, r.below(3)) : "<![ x [ y ]]> z") + "]]>"; }
    else s += entity(external);
  }
  return s + S(false);
}
std::string Gen::doctype(const std::string &root) {
  std::string s = "<!DOCTYPE" + S() + root; bool ext = r.chance(o.ext);
  size_t di = 0;
  if (ext) { s += S() + extid("dtd.dtd"); di = extDocs.size(); Doc d; d.sysid = "dtd.dtd"; d.behave = r.chance(93) ? 0 : r.range(1, 3); extDocs.push_back(d); }
  if (r.chance(o.subset)) { s += S(false) + "[" + decls(false, r.range(0, 8)) + "]"; }
  s += S(false) + ">";
  if (ext) { std::string t = (r.chance(40) ? xmldecl(true) : "") + decls(true, r.range(0, 6)); extDocs[di].data = t; }
  return s;
}
void Gen::document(Case &c) {
  int n = r.range(2, 5); for (int i = 0; i < n; i++) elemNames.push_back(name());
  n = r.range(2, 5); for (int i = 0; i < n; i++) attNames.push_back(name());
  std::string s;
  if (r.chance(o.xmldecl)) s += xmldecl(false);
  else if (r.chance(5)) s += nl();
  s += misc(); std::string root = elemNames[0];
  allowRefs = true;
  if (r.chance(o.dtd)) { s += doctype(root); s += misc(); }
  std::string body = element(0); if (r.chance(50)) s += body; else { // force the declared root
    elemsLeft = o.elems; size_t sc = nsScope.size(); std::string a = attrs(root); s += "<" + root + a + ">" + content(0) + content(0) + "</" + root + ">"; nsScope.resize(sc); }
  s += misc();
  // external entities that refer to entities declared after them, wherever that was (in these the DTD is a copy)
  if (extDocs.size() > 1) for (auto &e : extDocs) if (e.sysid[0] == 'e' && r.chance(12)) { e.data += "&" + (r.chance(70) && !extEnts.empty() ? r.pick(extEnts) : genEnts.empty() ? "lt" : r.pick(genEnts)) + ";"; if (r.chance(40)) e.data += "x"; }
  if (c.foreign && r.chance(75)) { Doc f; f.behave = r.chance(90) ? 0 : r.range(1, 3); size_t i = extDocs.size(); extDocs.push_back(f); std::string t = (r.chance(40) ? xmldecl(true) : "") + decls(true, r.range(0, 5)); extDocs[i].data = t; } // the DTD the application supplies has no system identifier
  Doc d; d.data = s; c.docs.clear(); c.docs.push_back(d); for (auto &e : extDocs) c.docs.push_back(e);
}
const std::vector<std::string> TOKENS = {
  "<", ">", "</", "/>", "<a", "<a>", "</a>", "<a/>", "<b", "</b>", "=", "\"", "'", "<!", "<!--", "-->", "--", "->", "<?", "?>", "?", "<?xml", " version='1.0'", " encoding='UTF-8'", " standalone='yes'", "<!DOCTYPE", "<!DOCTYPE a", "[", "]", "]>", "]]>", "<![CDATA[", "<![INCLUDE[", "<![IGNORE[", "<![",
  "<!ELEMENT", "<!ATTLIST", "<!ENTITY", "<!NOTATION", " EMPTY", " ANY", "(#PCDATA", "(", ")", "|", ",", "*", "+", "#", "#REQUIRED", "#IMPLIED", "#FIXED", " CDATA", " ID", " IDREF", " IDREFS", " ENTITY", " ENTITIES", " NMTOKEN", " NMTOKENS", " NOTATION", " SYSTEM", " PUBLIC", " NDATA", "%", "% p", "%p;", "&", "&e;", "&lt;", "&#", "&#x", "&#65;", "&#x41;", ";", " ", "\n", "\r", "\r\n", "\t", "a", "b", "x", "p:a", "xmlns=", "xmlns:p=", "xml:lang=", " a='1'", " x=\"y\"", "'u'", "\"e\"", ":", "-", ".", "1", "_", "\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\xC3", "\xE4\xB8", "\xED\xA0\x80", "\xEF\xBF\xBE", "\xEF\xBB\xBF", "\xFF", "\xFE", std::string(1, '\0'), "\x01", "\x7f", "\xC0\x80", "\xF4\x90\x80\x80", "]]", "/", "!", "<?p d?>", "<!-- c -->", "text"};
static const char *const DICT[] = {"<", ">", "&", "'", "\"", "/", "=", "]]>", "<!--", "-->", "<![CDATA[", "?>", "<?", "\r", "\n", "\xC3", "\x80", "\xFF", ";", "%", "#", "&#x", "&#0;", "xmlns:p=''", " a='1'", "(", ")", "[", "]", "<!DOCTYPE", "]>", ":", "-", "<a>", "</a>", "&e;", "%p;", "SYSTEM ''", "\xEF\xBF\xBF", "\xED\xA0\x80", "\f", "\x0b", " ", "|", ",", "*"};
void mutate(Rng &r, std::string &s, int n) {
  while (n-- > 0) {
    size_t L = s.size(); size_t i = r.below((uint32_t)L + 1);
    switch (r.below(9)) {
      case 0: if (L) s.erase(std::min(i, L - 1), 1); break;
      case 1: if (L) s.erase(std::min(i, L - 1), r.range(1, 8)); break;
      case 2: s.insert(i, r.pick(DICT)); break;
      case 3: s.insert(i, r.pick(TOKENS)); break;
      case 4: s.resize(i); break;
      case 5: if (L) s[std::min(i, L - 1)] = (char)r.next(); break;
      case 6: if (L > 4) { size_t j = r.below((uint32_t)L), k = r.range(1, 12); s.insert(i, s.substr(j, k)); } break;
      case 7: if (L > 2) { size_t j = r.below((uint32_t)L - 1); std::swap(s[j], s[j + 1]); } break;
      case 8: if (L) { const char *d = r.pick(DICT); size_t k = std::min(i, L - 1); s.replace(k, 1, d); } break;
    }
  }
}
std::string soup(Rng &r, int n, int kind) {
  std::string s;
  static const char *const pre[] = {"", "<a>", "<!DOCTYPE a [", "<!DOCTYPE a [<!ENTITY e 'v'><!ENTITY % p ''>", "<a x='", "<!DOCTYPE a [<!ELEMENT a ", "<!DOCTYPE a [<!ATTLIST a ", "<!DOCTYPE a [<!ENTITY ", "<!DOCTYPE a ", "<?xml ", "<a><![CDATA[", "<a>&", "<a ", "<!DOCTYPE a [<!NOTATION ", "<!DOCTYPE a SYSTEM 'd' [<!ENTITY x SYSTEM 'y'>]><a>"};
  if (kind < 0) kind = r.below(sizeof pre / sizeof *pre);
  s = pre[kind % (sizeof pre / sizeof *pre)];
  while (n-- > 0) s += r.pick(TOKENS);
  return s;
}
std::vector<int> gen_chunks(Rng &r, size_t len, int style) {
  std::vector<int> v; size_t pos = 0;
  switch (style) {
    case 0: break;
    case 1: while (pos < len) { v.push_back(1); pos++; } break;
    case 2: if (len) v.push_back(r.below((uint32_t)len)); break;
    case 3: while (pos < len) { int k = r.range(1, 7); v.push_back(k); pos += k; } break;
    case 4: while (pos < len) { int k = r.range(0, 40); v.push_back(k); pos += k; if (v.size() > 4000) break; } break;
    case 5: while (pos < len) { int k = r.chance(50) ? 1 : r.range(1, 200); v.push_back(k); pos += k; } break;
    case 6: while (pos < len) { v.push_back(2); pos += 2; } break;
    default: while (pos < len) { v.push_back(1024); pos += 1024; } break;
  }
  return v;
}
void random_chunks(Rng &r, Case &c) { for (auto &d : c.docs) { d.chunks = gen_chunks(r, d.data.size(), r.chance(40) ? 0 : r.below(8)); d.mode = r.chance(50) ? 0 : r.below(16); } }
void gen_case(Rng &r, const GenOpt &o, Case &c) {
  Gen g(r, o); g.document(c);
  if (o.invalid && r.chance(o.invalid)) { int n = r.range(1, 3); if (c.docs.size() > 1 && r.chance(30)) mutate(r, c.docs[r.range(1, (int)c.docs.size() - 1)].data, n); else mutate(r, c.docs[0].data, n); }
}
