// Monitors that need no reference: the generator writes a document and, at the same time, the events it must give;
// and the conservation law of XML_DefaultCurrent.
#include "oracles.h"
#include <algorithm>
#include <cstring>
typedef std::string str;
namespace {
struct Ev { char k; str t; int d; };
typedef std::vector<Ev> Evs;
void put(Evs &v, char k, const str &t, int d = 0) { if (k == 'T' && t.empty()) return; if (k == 'T' && !v.empty() && v.back().k == k && v.back().d == d) { v.back().t += t; return; } v.push_back({k, t, d}); }
void cat(Evs &v, const Evs &w, int up = 0) { for (auto &e : w) put(v, e.k, e.t, e.d + up); }
str show(const Evs &v) { str o; for (auto &e : v) o += str(e.d, ' ') + e.k + " " + (e.k == 'T' || e.k == 'D' ? esc(e.t) : e.t) + "\n"; return o; }
// what the log writes for a string
str lg(const str &s) { str o; char b[8]; bool need = false; for (unsigned char c : s) if (c < 0x20 || c == '\\' || c == '~' || c == 0x7f) need = true; if (!need) return s; for (unsigned char c : s) { if (c < 0x20 || c == 0x7f) { snprintf(b, 8, "\\x%02x", c); o += b; } else if (c == '\\' || c == '~') { o += '\\'; o += (char)c; } else o += (char)c; } return o; }
str eol(const str &s) { str o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\r') { o += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') i++; } else o += s[i]; } return o; }
str spaces(str s) { for (char &c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }
str token(const str &s) { str o; for (char c : s) { if (c == ' ' && (o.empty() || o.back() == ' ')) continue; o += c; } if (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
struct Att { str name; bool cdata, has, id; str def; };
struct Model {
  Rng &r; Gen g; Case &c; int dup = 0, depth = 5, elems = 14, big = 3; bool dead = false, inEnt = false, noEnt = false;   // dead: the document ends in an error here
  struct Tx { str src, text, att; };            // a piece of character data: as written, in content, in an attribute value
  std::map<str, Tx> texts; std::map<str, Evs> marks; std::vector<str> tnames, mnames; std::map<str, str> exts, extb; std::map<str, Evs> extEvs; std::vector<str> xnames;
  std::set<str> ents, pes; std::map<str, std::vector<Att>> decl; std::vector<str> en, an; std::vector<std::pair<str, str>> cms;
  str base;
  Model(Rng &rr, const GenOpt &o, Case &cc) : r(rr), g(rr, o), c(cc) { base = c.base.empty() ? "~" : lg(c.base); }
  str nm() { str n = g.name(); for (char &ch : n) if (ch == ':') ch = '_'; if (n.size() >= 3 && strncasecmp(n.c_str(), "xml", 3) == 0) n = "q" + n; return n; }
  str S(bool m = true) { return g.S(m); }
  // literal text that contains no markup
  str lit(int n) { str s = g.text(n); if (r.chance(big)) s += g.text(150 + r.below(700)); if (!s.empty() && (s.back() == '\r' || s.back() == ']')) s += '.'; for (size_t i = 0; (i = s.find("]]>")) != str::npos;) s[i + 2] = '.'; return s; }
  Tx ref() {
    static const struct { const char *s, *t; } R[] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", "\""}, {"&apos;", "'"}, {"&#65;", "A"}, {"&#x41;", "A"}, {"&#10;", "\n"}, {"&#13;", "\r"}, {"&#9;", "\t"}, {"&#32;", " "}, {"&#x20;", " "}, {"&#xE9;", "\xC3\xA9"}, {"&#233;", "\xC3\xA9"}, {"&#x4E2D;", "\xE4\xB8\xAD"}, {"&#x1F600;", "\xF0\x9F\x98\x80"}, {"&#x10FFFD;", "\xF4\x8F\xBF\xBD"}, {"&#60;", "<"}, {"&#38;", "&"}, {"&#x26;", "&"}, {"&#128;", "\xC2\x80"}, {"&#xD7FF;", "\xED\x9F\xBF"}, {"&#xFFFD;", "\xEF\xBF\xBD"}, {"&#0000065;", "A"}, {"&#x7ff;", "\xDF\xBF"}, {"&#x800;", "\xE0\xA0\x80"}, {"&#65536;", "\xF0\x90\x80\x80"}};
    if (!tnames.empty() && r.chance(40)) { str n = r.pick(tnames); return {"&" + n + ";", texts[n].text, texts[n].att}; }
    auto &x = R[r.below(sizeof R / sizeof *R)]; return {x.s, x.t, x.t};
  }
  Tx chars(char q, int n) {    // q: the quote around it, 0 in content
    Tx t;
    while (n-- > 0) {
      if (r.chance(30)) { Tx x = ref(); t.src += x.src; t.text += x.text; t.att += x.att; continue; }
      str s = r.chance(15) ? r.pick({" ", "  ", "\t", "\n", "\r\n.", "\r.", " \n "}) : lit(r.range(1, 3)); if (q) for (char &ch : s) if (ch == q || ch == '%') ch = '_';
      t.src += s; t.text += eol(s); t.att += spaces(eol(s));
    }
    return t;
  }
  str quoted(const str &s) { str o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%') o += "&#37;"; else if (s[i] == '"') o += "&#34;"; else if (s[i] == '&' && i + 1 < s.size() && s[i + 1] == '#') o += "&#38;"; else o += s[i]; } return o; }
  str comment(Evs &v) { str s = g.comment(); put(v, 'C', lg(eol(s.substr(4, s.size() - 7)))); return s; }
  str pi(Evs &v) { str n = nm(), d; if (r.chance(25)) { put(v, 'P', lg(n) + " "); return "<?" + n + (r.chance(30) ? S() : "") + "?>"; } d = lit(r.below(4)); for (size_t p; (p = d.find("?>")) != str::npos;) d[p] = '.'; if (!d.empty() && d.back() == '?') d += '.'; size_t a = d.find_first_not_of(" \t\r\n"); put(v, 'P', lg(n) + " " + lg(a == str::npos ? "" : eol(d.substr(a)))); return "<?" + n + S() + d + "?>"; }
  str cdata(Evs &v) { str s = g.cdata(), t = s.substr(9, s.size() - 12); put(v, '[', ""); put(v, 'T', eol(t)); put(v, ']', ""); return s; }
  str start(const str &n, Evs &v) {
    auto &D = decl[n]; std::vector<std::pair<str, str>> at; str s; int k = r.below(g.o.attrs + 1); if (r.chance(4)) k += 5 + r.below(60); int id = -1; str idn; for (auto &d : D) if (d.id) { idn = d.name; break; }
    std::set<str> used; bool bad = false;
    while (k--) {
      str a = !D.empty() && r.chance(60) ? r.pick(D).name : !an.empty() && r.chance(60) ? r.pick(an) : nm();
      if (used.count(a)) { if (inEnt || !r.chance(dup)) continue; bad = true; }
      used.insert(a); char q = r.chance(80) ? '"' : '\''; Tx t = chars(q, r.below(4)); bool cd = true; for (auto &d : D) if (d.name == a) { cd = d.cdata; break; }
      if (a == idn) id = 2 * (int)at.size();
      at.push_back({a, cd ? t.att : token(t.att)}); s += S() + a + (r.chance(10) ? S() : "") + "=" + (r.chance(10) ? S() : "") + q + t.src + q;
    }
    if (bad) { put(v, '!', "err=8"); dead = true; return s; }
    int spec = 2 * (int)at.size(); std::set<str> seen;
    for (auto &d : D) if (d.has && !used.count(d.name) && seen.insert(d.name).second) at.push_back({d.name, d.def});
    str t = lg(n); for (auto &a : at) { str x = lg(a.second); for (size_t q = 0; (q = x.find('"', q)) != str::npos; q += 3) x.replace(q, 1, "\\x22"); t += " " + lg(a.first) + "=\"" + x + "\""; }
    put(v, 'S', t + " #" + std::to_string(spec) + "," + std::to_string(id)); return s;
  }
  str element(int d, Evs &v) {
    elems--; str n = inEnt ? "ent." + nm() : r.chance(80) ? r.pick(en) : nm(), s = "<" + n + start(n, v) + (r.chance(10) ? S() : ""); if (dead) return s + ">";
    if (r.chance(30)) { put(v, 'E', lg(n)); return s + "/>"; }
    s += ">" + content(d + 1, v); if (dead) return s; put(v, 'E', lg(n)); return s + "</" + n + (r.chance(8) ? S() : "") + ">";
  }
  str content(int d, Evs &v) {
    str s; int n = r.below(6);
    while (n-- > 0 && !dead) {
      int k = r.below(100);
      if (k < 35 && elems > 0 && d < depth) s += element(d, v);
      else if (k < 45 && r.chance(g.o.cdata * 4)) s += cdata(v);
      else if (k < 55 && r.chance(g.o.comments * 4)) s += comment(v);
      else if (k < 62 && r.chance(g.o.pis * 4)) s += pi(v);
      else if (k < 70 && !mnames.empty()) { str e = r.pick(mnames); s += "&" + e + ";"; cat(v, marks[e]); }
      else if (k < 74 && !xnames.empty()) { str e = r.pick(xnames); s += "&" + e + ";"; put(v, 'Z', "ctx=y base=" + extb[e] + " " + exts[e]); cat(v, extEvs[e], 1); }
      else { Tx t = chars(0, r.range(1, 4)); if (t.src.empty()) continue; if (!s.empty() && s.back() == ']') s += ' ', put(v, 'T', " "); s += t.src; put(v, 'T', t.text); }
    }
    return s;
  }
  // ---- declarations ----
  str pub(const str &raw) { str o = spaces(eol(raw)); return token(o); }
  str extid(str &log, bool pubOnly = false) {
    str sys = r.pick({"s", "a b", "http://x/y?z#w", "", "\xC3\xA9", "long/system/identifier/of/some/length/that/goes/on/and/on", "'"}), p = g.pubid(); char q = sys == "'" ? '"' : r.chance(80) ? '"' : '\'';
    if (r.chance(35)) { char pq = p.find('\'') != str::npos ? '"' : q; if (pubOnly && r.chance(40)) { log = "sys=~ pub=" + lg(pub(p)); return "PUBLIC" + S() + pq + p + pq; } log = "sys=" + lg(sys) + " pub=" + lg(pub(p)); return "PUBLIC" + S() + pq + p + pq + S() + q + sys + q; }
    log = "sys=" + lg(sys) + " pub=~"; return "SYSTEM" + S() + q + sys + q;
  }
  const char *quant() { static const char *const Q[] = {"", "", "?", "*", "+"}; return Q[r.below(5)]; }
  str cm(int d, str &log) {
    if (d > 0 && r.chance(55)) { str n = r.chance(60) ? r.pick(en) : nm(), q = quant(); log += "4" + q + ":" + lg(n); return n + q; }
    bool seq = r.chance(50); int n = r.chance(3) ? r.range(5, 60) : r.range(1, 4); str s = "(" + S(false), in; for (int i = 0; i < n; i++) { if (i) { s += S(false) + (seq ? "," : "|") + S(false); in += ' '; } if (d < 5) s += cm(d + 1, in); else { str k = nm(); in += "4:" + lg(k); s += k; } }
    str q = quant(); log += (seq || n == 1 ? "6" : "5") + q + "(" + in + ")"; return s + S(false) + ")" + q;
  }
  str elemdecl(Evs &v, bool pe) {
    str n = r.chance(70) ? r.pick(en) : nm(), m, log; int k = r.below(10);
    if (pe && !cms.empty() && r.chance(40)) { auto &x = r.pick(cms); m = "%" + x.first + ";"; log = x.second; }
    else if (k < 1) { m = "EMPTY"; log = "1"; } else if (k < 2) { m = "ANY"; log = "2"; }
    else if (k < 3) { bool st = r.chance(50); m = str("(") + S(false) + "#PCDATA" + S(false) + ")" + (st ? "*" : ""); log = st ? "3*" : "3"; }
    else if (k < 5) { m = "(" + S(false) + "#PCDATA"; str in; std::set<str> u; int q = r.range(1, 4); for (int i = 0; i < q; i++) { str e = r.pick(en); if (!u.insert(e).second) continue; m += S(false) + "|" + S(false) + e; in += (in.empty() ? "" : " ") + str("4:") + lg(e); } m += S(false) + ")*"; log = "3*(" + in + ")"; }
    else m = cm(0, log);
    put(v, 'L', lg(n) + " " + log); return "<!ELEMENT" + S() + n + S() + m + S(false) + ">";
  }
  str attlist(Evs &v) {
    str n = r.chance(85) ? r.pick(en) : nm(), s = "<!ATTLIST" + S() + n; int k = r.chance(4) ? r.range(5, 30) : r.range(0, 4);
    while (k--) {
      str a = r.chance(75) ? r.pick(an) : nm(), t, lt; int x = r.below(13); bool cd = false;
      static const char *const T[] = {"ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS"};
      if (x < 4) { t = lt = "CDATA"; cd = true; } else if (x < 11) t = lt = T[x - 4];
      else { bool no = x == 12; t = str(no ? "NOTATION" + S() : "") + "(" + S(false); lt = no ? "NOTATION(" : "("; int q = r.range(1, 5); for (int i = 0; i < q; i++) { str w = !no && r.chance(20) ? "1a" : nm(); if (i) { t += S(false) + "|" + S(false); lt += "|"; } t += w; lt += w; } t += S(false) + ")"; lt += ")"; }
      int d = r.below(10); str dv, def; bool has = false; int req = 0;
      if (d < 3) dv = "#IMPLIED"; else if (d < 4) { dv = "#REQUIRED"; req = 1; } else { if (d < 6) { dv = "#FIXED" + S(); req = 1; } char q = r.chance(80) ? '"' : '\''; Tx y = chars(q, r.below(4)); dv += q + y.src + q; def = cd ? y.att : token(y.att); has = true; }
      s += S() + a + S() + t + S() + dv; put(v, 'a', lg(n) + " " + lg(a) + " " + lg(lt) + " def=" + (has ? lg(def) : str("~")) + " req=" + std::to_string(req));
      bool known = false; for (auto &e : decl[n]) if (e.name == a) known = true; if (!known) decl[n].push_back({a, cd, has, x == 4 && !has, def});   // (an ID cannot have a default)
    }
    return s + S(false) + ">";
  }
  str fresh(std::set<str> &in) { str n; do n = nm(); while (n == "lt" || n == "gt" || n == "amp" || n == "quot" || n == "apos" || in.count(n)); return n; }
  void val(Evs &v, const str &n, int pe, const str &value) { put(v, 'N', lg(n) + " pe=" + std::to_string(pe) + " val=" + lg(value) + " base=" + base + " sys=~ pub=~ not=~"); }
  str entity(Evs &v) {
    if (!ents.empty() && r.chance(8)) { std::vector<str> e(ents.begin(), ents.end()); return "<!ENTITY" + S() + r.pick(e) + S() + (r.chance(70) ? "'the second declaration'" : "SYSTEM 'second'") + ">"; }   // the first one binds
    str n = fresh(ents), s = "<!ENTITY" + S() + n + S(); int k = r.below(10); str log;
    if (k < 5) { Tx t; str value; int m = r.below(5); while (m--) { if (r.chance(35)) { Tx x = ref(); bool ch = x.src[1] == '#'; if (ch && x.src != "&#65;" && x.src != "&#xE9;" && x.src != "&#x4E2D;" && x.src != "&#x1F600;") { t.src += "&#38;" + x.src.substr(1); value += x.src; } else { t.src += x.src; value += ch ? x.text : x.src; } t.text += x.text; t.att += x.att; } else { str l = lit(r.range(1, 3)); for (char &q : l) if (q == '%' || q == '"') q = '_'; t.src += l; value += eol(l); t.text += eol(l); t.att += spaces(eol(l)); } }
      val(v, n, 0, value); ents.insert(n); str out = s + "\"" + t.src + "\"" + S(false) + ">"; if (value.size() < 3000) { texts[n] = t; tnames.push_back(n); } return out; }
    if (k < 7) { Evs e; int sv = elems; elems = 3; inEnt = true; str src = content(depth - 2, e); inEnt = false; elems = sv; if (dead) { dead = false; return ""; }
      str value; str q = quoted(src); value = eol(src); for (size_t i = 0; (i = value.find("\r")) != str::npos;) value.erase(i, 1); val(v, n, 0, value); ents.insert(n); if (e.size() < 40 && src.size() < 4000) { marks[n] = e; mnames.push_back(n); } return s + "\"" + q + "\"" + S(false) + ">"; }
    if (k < 8) { s += extid(log); ents.insert(n); str no = r.pick(an); put(v, 'U', lg(n) + " base=" + base + " " + log + " not=" + lg(no)); return s + S() + "NDATA" + S() + no + S(false) + ">"; }
    // an external entity that is read
    str sys = "e" + std::to_string(c.docs.size()) + ".xml"; Evs e; ents.insert(n); str src, pb = "~", b0 = "~"; extb[n] = base;   // (a parser made for an external entity starts without a base)
    if (r.chance(30)) { src = "<?xml" + str(r.chance(50) ? " version='1.0'" : "") + " encoding='UTF-8'?>"; put(e, 'X', str("ver=") + (src.find("version") != str::npos ? "1.0" : "~") + " enc=UTF-8 sa=-1"); }
    int sv = elems; elems = 3; inEnt = true; std::swap(base, b0); src += content(depth - 3, e); std::swap(base, b0); inEnt = false; elems = sv; if (dead) { dead = false; return ""; } put(e, '.', "ok");
    if (r.chance(30)) { str p = g.pubid(); pb = lg(pub(p)); s += "PUBLIC \"" + p + "\" '" + sys + "'"; } else s += "SYSTEM \"" + sys + "\"";
    log = "sys=" + sys + " pub=" + pb; put(v, 'N', lg(n) + " pe=0 val=~ base=" + base + " " + log + " not=~"); 
    Doc d; d.sysid = sys; d.data = src; c.docs.push_back(d); if (e.size() < 60) { exts[n] = log; extEvs[n] = e; xnames.push_back(n); } return s + S(false) + ">";
  }
  str notation(Evs &v) { str n = r.pick(an), log, s = "<!NOTATION" + S() + n + S() + extid(log, true) + S(false) + ">"; put(v, 'O', lg(n) + " base=" + base + " " + log); return s; }
  str decls(Evs &v, int n, bool pe, bool ext, int lvl) {
    str s;
    while (n-- > 0) {
      s += S(false); int k = r.below(100);
      if (k < g.o.attlist) s += attlist(v);
      else if (k < 60) s += elemdecl(v, ext && pe);
      else if (k < 66) s += notation(v);
      else if (k < 71) s += comment(v); else if (k < 75) s += pi(v);
      else if (k < 83 && pe && lvl < 2) {   // a parameter entity holding declarations, used at once
        str nn = fresh(pes); Evs in; bool sv = noEnt; noEnt = true; str src = decls(in, r.below(3), false, false, lvl + 1); noEnt = sv;
        pes.insert(nn); val(v, nn, 1, eolv(src)); s += "<!ENTITY" + S() + "%" + S() + nn + S() + "\"" + quotedpe(src) + "\"" + S(false) + ">" + S(false) + "%" + nn + ";"; cat(v, in);
      }
      else if (k < 87 && ext && pe) { str nn = fresh(pes), log, m = cm(0, log); if (m.size() > 3000) continue; pes.insert(nn); cms.push_back({nn, log}); val(v, nn, 1, eolv(m)); s += "<!ENTITY % " + nn + " \"" + m + "\">"; }
      else if (k < 92 && ext && lvl < 3) { if (r.chance(60)) { s += "<![" + S(false) + "INCLUDE" + S(false) + "["; s += decls(v, r.below(4), pe, ext, lvl + 1) + "]]>"; } else s += "<![" + S(false) + "IGNORE" + S(false) + "[" + r.pick({"", "x", "<!ENTITY lost 'v'>", "<![ nested ]]>", "<![INCLUDE[ <!ELEMENT ]]> ]]", "%undef; & < \"", "]]", "]", "<!", "<![IGNORE[]]>"}) + "]]>"; }
      else if (!noEnt) s += entity(v);
    }
    return s + S(false);
  }
  str eolv(const str &s) { return eol(s); }
  str quotedpe(const str &s) { str o; for (char ch : s) { if (ch == '%') o += "&#37;"; else if (ch == '"') o += "&#34;"; else if (ch == '&') o += "&#38;"; else o += ch; } return o; }
  void document(int dtd, Evs &v) {
    int n = r.range(1, 5); while (n--) en.push_back(nm()); n = r.range(1, 5); while (n--) an.push_back(nm());
    Doc d0; c.docs.assign(1, d0); str s; int sa = -1; str encdecl;
    if (r.chance(50)) { sa = r.chance(60) ? -1 : r.below(2); encdecl = r.chance(50) ? r.pick({"UTF-8", "utf-8", "Utf-8"}) : ""; char q = r.chance(75) ? '"' : '\''; s += "<?xml" + S() + "version=" + q + "1.0" + q; if (!encdecl.empty()) s += S() + "encoding" + (r.chance(10) ? " = " : "=") + q + encdecl + q; if (sa >= 0) s += S() + "standalone=" + q + (sa ? "yes" : "no") + q; s += (r.chance(20) ? S() : "") + "?>"; put(v, 'X', "ver=1.0 enc=" + (encdecl.empty() ? "~" : encdecl) + " sa=" + std::to_string(sa)); }
    auto misc = [&] { int k = r.below(3); while (k--) { s += S(false); if (r.chance(40)) s += comment(v); else if (r.chance(40)) s += pi(v); else s += g.nl(); } };
    misc(); str root = r.pick(en);
    if (r.chance(dtd)) {
      bool ext = c.pe && r.chance(40), pe = c.pe == 2 || (c.pe == 1 && sa != 1); if (ext && !pe) ext = false; str log = "sys=~ pub=~", sys = "dtd.dtd"; bool in = r.chance(85) || !ext;
      s += "<!DOCTYPE" + S() + root; if (ext) { if (r.chance(30)) { str p = g.pubid(); s += S() + "PUBLIC" + S() + "\"" + p + "\"" + S() + "'dtd.dtd'"; log = "sys=dtd.dtd pub=" + lg(pub(p)); } else { s += S() + "SYSTEM" + S() + "\"dtd.dtd\""; log = "sys=dtd.dtd pub=~"; } }
      put(v, 'Y', lg(root) + " " + log + " int=" + (in ? "1" : "0")); size_t di = c.docs.size(); if (ext) { Doc d; d.sysid = "dtd.dtd"; c.docs.push_back(d); }
      if (in) { s += S(false) + "["; s += decls(v, r.chance(5) ? r.range(20, 80) : r.range(0, 9), pe, false, 0); s += "]"; }
      s += S(false) + ">";
      if (ext) { Evs e; str t; if (r.chance(30)) { t = "<?xml encoding='utf-8'?>"; put(e, 'X', "ver=~ enc=utf-8 sa=-1"); } str b0 = "~"; std::swap(base, b0); noEnt = sa == 1; t += decls(e, r.range(0, 9), pe, true, 0); std::swap(base, b0); noEnt = false; /* a standalone document cannot refer to entities declared elsewhere */ put(e, '.', "ok"); put(v, 'Z', "ctx=~ base=" + base + " " + log); cat(v, e, 1); c.docs[di].data = t; }
      put(v, 'y', ""); misc();
    }
    str rs = "<" + root + start(root, v); if (dead) { c.docs[0].data = s + rs + "/>"; return; }
    s += rs; if (r.chance(8)) { s += "/>"; put(v, 'E', lg(root)); }
    else { s += ">"; int k = r.range(1, 3); while (k-- && !dead) s += content(0, v); if (!dead) { put(v, 'E', lg(root)); s += "</" + root + ">"; } }
    if (!dead) { misc(); put(v, '.', "ok"); }
    c.docs[0].data = s;
  }
};
void gen(Rng &r, Case &c, int kind) {
  c.ns = r.chance(60) ? 0 : r.range(1, 3); c.sep = r.pick({"|", "\n", "#", "\x01"}); c.trip = c.ns && r.chance(30); c.pe = r.below(3); c.flags = r.chance(30) ? F_POS : 0; if (r.chance(20)) c.base = "http://base/"; if (r.chance(20)) c.flags |= F_PARSERARG;
  c.handlers = H_ALL_NODEF & ~HB(H_NOTSTANDALONE);
  GenOpt o; o.longtok = r.chance(50) ? 0 : 4; o.multibyte = r.chance(30) ? 0 : r.range(5, 50); o.nl = r.chance(30) ? 80 : 30; o.undeclared = 0; o.attrs = kind == 1 ? 6 : 3; o.attlist = kind == 1 ? 50 : 25;
  Model m(r, o, c); m.elems = kind == 2 ? 5 : r.range(4, 25); m.dup = kind == 1 ? 4 : 0; Evs v; m.document(kind == 0 ? 50 : 100, v);
  str e = r.pick({"", "", "", "", "", "UTF-16LE", "UTF-16BE", "UTF-8"}); str want = show(v);
  for (auto &d : c.docs) { if (!e.empty() && r.chance(80)) { str b = d.data, o2; for (const char *p : {"encoding", "Encoding"}) (void)p; bool decl = b.compare(0, 5, "<?xml") == 0 && b.substr(0, b.find("?>")).find("encoding") != str::npos; if ((e == "UTF-8" || !decl) && transcode(b, e, o2, true)) d.data = o2; } d.chunks = gen_chunks(r, d.data.size(), r.chance(40) ? 0 : r.below(8)); d.mode = r.chance(50) ? 0 : r.below(16); }
  if (r.chance(25)) { int n = r.range(1, 5); while (n--) c.acts.push_back({(uint32_t)r.below(80), A_STOP_RES, 0}); }
  bound_rescans(c); Doc w; w.sysid = "\x01want"; w.data = want; c.docs.push_back(w);
}
str chk(const Case &c) {
  Trace t = run_case(API_SUT, c); if (t.overflow) { g_stats->skipped++; return ""; }
  Evs v; for (auto &e : t.ev) if (!strchr("ARcFpu", e.k)) put(v, e.k, e.text, e.depth);
  g_stats->evals++; g_stats->trace(t, 0); str d = first_diff(c.docs.back().data, show(v), "written", "reported");
  if (!d.empty()) return "the events are not those the document was written to give\n" + d;
  if (t.leak) return "  library blocks still allocated after XML_ParserFree: " + std::to_string(t.leak) + "\n";
  return invs(t);
}
// Every event is passed on to the default handler or not: what the default handler gets is the document without the extents of those that were not.
str chk_defcur(const Case &c) {
  Trace t = run_case(API_SUT, c); if (t.overflow || t.status != 1) { g_stats->skipped++; return ""; }
  const str &doc = c.docs[0].data; int w = 1; if (doc.size() > 1 && (!doc[0] || !doc[1])) { g_stats->skipped++; return ""; } bool be = false; size_t bom = 0; if (doc.size() >= 2 && (unsigned char)doc[0] == 0xFF && (unsigned char)doc[1] == 0xFE) { w = 2; bom = 2; } else if (doc.size() >= 2 && (unsigned char)doc[0] == 0xFE && (unsigned char)doc[1] == 0xFF) { w = 2; be = true; bom = 2; } else if (doc.compare(0, 3, "\xEF\xBB\xBF") == 0) bom = 3;
  std::vector<bool> gone(doc.size(), false); for (size_t i = 0; i < bom; i++) gone[i] = true; str got; std::set<uint32_t> passed; for (auto &a : c.acts) if (a.kind == A_DEFCUR) passed.insert(a.ev);
  std::vector<std::pair<long, long>> r;
  for (auto &e : t.ev) { if (e.k == 'D') { got += e.text; continue; } if (strchr("ARcFp.!", e.k) || passed.count(e.raw)) continue; if (e.pos.idx < 0 || e.pos.cnt < 0 || (size_t)(e.pos.idx + e.pos.cnt) > doc.size()) return "  an event outside the document\n"; for (int i = 0; i < e.pos.cnt; i++) { if (gone[e.pos.idx + i]) return "  two events at byte index " + std::to_string(e.pos.idx + i) + "\n"; gone[e.pos.idx + i] = true; } }
  str want; uint32_t hi = 0;
  for (size_t i = 0; i + w <= doc.size(); i += w) { if (gone[i]) continue; if (w == 1) { want += doc[i]; continue; } uint32_t u = be ? (unsigned char)doc[i] << 8 | (unsigned char)doc[i + 1] : (unsigned char)doc[i + 1] << 8 | (unsigned char)doc[i]; if (u >= 0xD800 && u < 0xDC00) { hi = u; continue; } if (u >= 0xDC00 && u < 0xE000) u = 0x10000 + ((hi - 0xD800) << 10) + (u - 0xDC00); utf8_put(want, u); }
  g_stats->evals++; g_stats->trace(t, F_POS);
  // (a surrogate pair can be delivered in two pieces)
  str joined; for (size_t i = 0; i < got.size(); i++) { auto u = [&](size_t k) { return (unsigned)(unsigned char)got[k]; }; if (i + 5 < got.size() && u(i) == 0xED && (u(i + 1) & 0xF0) == 0xA0 && u(i + 3) == 0xED && (u(i + 4) & 0xF0) == 0xB0) { unsigned h = 0xD000 | (u(i + 1) & 63) << 6 | (u(i + 2) & 63), l = 0xD000 | (u(i + 4) & 63) << 6 | (u(i + 5) & 63); utf8_put(joined, 0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00)); i += 5; } else joined += got[i]; }
  str d = first_diff(esc(want), esc(joined), "the document without the events that were kept", "what the default handler received");
  if (!d.empty()) return d;
  if (t.leak) return "  library blocks still allocated after XML_ParserFree: " + std::to_string(t.leak) + "\n";
  return invs(t);
}
void gen_defcur(Rng &r, Case &c) {
  common_cfg(r, c); c.flags = F_POS | F_RAW; c.foreign = 0; c.handlers = (uint32_t)r.next() & H_ALL & ~HB(H_SNS) & ~HB(H_ENS); c.handlers |= HB(H_DEFAULT); if (r.chance(60)) c.handlers |= HB(H_CHARS) | HB(H_START) | HB(H_END);
  GenOpt o; o.ns = c.ns; o.dtd = 0; o.undeclared = 0; o.ents = 10; o.multibyte = r.chance(30) ? 0 : r.range(5, 60); o.nl = r.chance(40) ? 80 : 30; gen_case(r, o, c); c.docs.resize(1);
  str s; if (r.chance(30) && c.docs[0].data.find("encoding") == str::npos && transcode(c.docs[0].data, r.pick({"UTF-8", "UTF-16LE", "UTF-16BE"}), s, true)) c.docs[0].data = s;
  random_chunks(r, c); int p = r.chance(30) ? 100 : r.below(101); for (uint32_t i = 0; i < 400; i++) if (r.chance(p)) c.acts.push_back({i, A_DEFCUR, 1});
  if (r.chance(30)) { int n = r.range(1, 4); while (n--) c.acts.push_back({(uint32_t)r.below(60), A_STOP_RES, 0}); }
}
}
__attribute__((constructor)) static void reg() {
  add("roundtrip", [](Rng &r, uint64_t, Case &c) { gen(r, c, 0); }, chk);
  add("attr-model", [](Rng &r, uint64_t, Case &c) { gen(r, c, 1); }, chk);
  add("dtd-model", [](Rng &r, uint64_t, Case &c) { gen(r, c, 2); }, chk);
  add("defcur", [](Rng &r, uint64_t, Case &c) { gen_defcur(r, c); }, chk_defcur);
}
