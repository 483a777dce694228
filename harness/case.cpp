#include "case.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>
std::string esc(const std::string &s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c;
  }
  return o;
}
std::string unesc(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\' || i + 1 >= s.size()) { o += s[i]; continue; }
    char c = s[++i];
    if (c == 'n') o += '\n'; else if (c == 'r') o += '\r'; else if (c == 't') o += '\t';
    else if (c == 'x') { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += c;
  }
  return o;
}
std::string Case::ser() const {
  std::ostringstream o;
  o << "oracle " << oracle << "\ncfg " << ns << ' ' << trip << ' ' << pe << ' ' << foreign << ' ' << salt << ' ' << handlers << ' ' << flags << '\n';
  o << "sep " << esc(sep) << "\nbase " << esc(base) << "\n";
  for (auto &a : acts) o << "act " << a.ev << ' ' << a.kind << ' ' << a.arg << '\n';
  if (!p.empty()) { o << "p"; for (long x : p) o << ' ' << x; o << '\n'; }
  for (auto &d : docs) {
    o << "doc " << d.mode << ' ' << d.behave; for (int c : d.chunks) o << ' ' << c; o << '\n';
    o << "sysid " << esc(d.sysid) << "\nenc " << esc(d.enc) << "\ndata " << esc(d.data) << '\n';
  }
  if (!note.empty()) o << "note " << esc(note) << '\n';
  return o.str();
}
bool Case::parse(const std::string &t, Case &c) {
  c = Case(); std::istringstream in(t); std::string line;
  bool any = false;
  while (std::getline(in, line)) {
    size_t sp = line.find(' '); std::string k = line.substr(0, sp), v = sp == std::string::npos ? "" : line.substr(sp + 1);
    std::istringstream vs(v);
    if (k == "oracle") { c.oracle = v; any = true; }
    else if (k == "cfg") vs >> c.ns >> c.trip >> c.pe >> c.foreign >> c.salt >> c.handlers >> c.flags;
    else if (k == "sep") c.sep = unesc(v); else if (k == "base") c.base = unesc(v);
    else if (k == "act") { Act a; vs >> a.ev >> a.kind >> a.arg; c.acts.push_back(a); }
    else if (k == "p") { long x; while (vs >> x) c.p.push_back(x); }
    else if (k == "doc") { Doc d; vs >> d.mode >> d.behave; int x; while (vs >> x) d.chunks.push_back(x); c.docs.push_back(d); }
    else if (c.docs.size() && k == "sysid") c.docs.back().sysid = unesc(v);
    else if (c.docs.size() && k == "enc") c.docs.back().enc = unesc(v);
    else if (c.docs.size() && k == "data") c.docs.back().data = unesc(v);
    else if (k == "note") c.note = unesc(v);
  }
  return any && !c.docs.empty();
}
