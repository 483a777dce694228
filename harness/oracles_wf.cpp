// The xmlwf program: run as a process on real files, compared with a model of its documentation over the reference parser.
#ifndef XML_UNICODE
#include "oracles.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <grp.h>
#include <dirent.h>
#include <errno.h>
#include <time.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <algorithm>
typedef std::string str; typedef std::vector<str> strs;
struct Res { int status = -1; str out, err; std::map<str, str> files; str show() const { str s = "exit " + std::to_string(status) + "\nstdout:\n" + esc(out) + "\n"; for (auto &f : files) { s += "file " + esc(f.first) + ":\n"; size_t a = 0; while (a <= f.second.size()) { size_t b = f.second.find('\n', a); s += esc(f.second.substr(a, b == str::npos ? b : b - a)) + "\n"; if (b == str::npos) break; a = b + 1; } } return s; } };
static bool slurp_fd(int fd, str &o) { char b[65536]; ssize_t k; o.clear(); while ((k = read(fd, b, sizeof b)) > 0) o.append(b, k); return k == 0; }
static void spew(const str &f, const str &d) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) return; size_t i = 0; while (i < d.size()) { ssize_t k = write(fd, d.data() + i, d.size() - i); if (k <= 0) break; i += k; } close(fd); }
// ---- the model -------------------------------------------------------------------------------------------------------
struct Wf;
struct Note { str name; const char *sys, *pub; str s, p; };
struct Wf {
  const Api *A; str out; std::vector<str> *stdin_; // what is printed; the pieces read from standard input
  bool open = false; str *fp = nullptr; std::vector<Note> notes; str doctype; bool file_map = true;
  std::map<XML_Parser, bool> dummy;
};
static Wf *W;
static void text(str &o, const char *s, size_t n) { for (size_t i = 0; i < n; i++) switch (s[i]) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; case 9: case 10: case 13: o += "&#" + std::to_string(s[i]) + ";"; break; default: o += s[i]; } }
static str quoted(const char *s) { str o = "=\""; text(o, s, strcspn(s, "\1")); return o + "\""; }
static strs sorted(const char **a) { strs n; std::vector<std::pair<str, str>> v; for (; *a; a += 2) v.push_back({a[0], a[1]}); std::sort(v.begin(), v.end()); for (auto &x : v) { n.push_back(x.first); n.push_back(x.second); } return n; }
static void c_start(void *, const char *n, const char **a) { str &o = *W->fp; o += str("<") + n; strs s = sorted(a); for (size_t i = 0; i < s.size(); i += 2) o += " " + s[i] + quoted(s[i + 1].c_str()); o += ">"; }
static void c_end(void *, const char *n) { *W->fp += str("</") + n + ">"; }
static void n_start(void *, const char *n, const char **a) {
  str &o = *W->fp; int k = 1; const char *l = strrchr(n, 1);
  if (l) { o += str("<n1:") + (l + 1) + " xmlns:n1" + quoted(n); k = 2; } else o += str("<") + n;
  strs s = sorted(a);
  for (size_t i = 0; i < s.size(); i += 2) { size_t p = s[i].rfind(1); str q = p == str::npos ? s[i] : "n" + std::to_string(k) + ":" + s[i].substr(p + 1); o += " " + q + quoted(s[i + 1].c_str()); if (p != str::npos) { o += " xmlns:n" + std::to_string(k) + quoted(s[i].c_str()); k++; } }
  o += ">";
}
static void n_end(void *, const char *n) { const char *l = strrchr(n, 1); *W->fp += l ? str("</n1:") + (l + 1) + ">" : str("</") + n + ">"; }
static void c_text(void *, const char *s, int n) { text(*W->fp, s, n); }
static void c_pi(void *, const char *t, const char *d) { *W->fp += str("<?") + t + " " + d + "?>"; }
static void c_sdt(void *, const char *n, const char *, const char *, int) { W->doctype = n; }
static void c_not(void *, const char *n, const char *, const char *s, const char *p) { Note x; x.name = n; x.sys = s ? "" : nullptr; x.pub = p ? "" : nullptr; if (s) x.s = s; if (p) x.p = p; W->notes.insert(W->notes.begin(), x); }
static void c_edt(void *) {
  if (W->notes.empty()) return;
  std::stable_sort(W->notes.begin(), W->notes.end(), [](const Note &a, const Note &b) { return std::lexicographical_compare(a.name.begin(), a.name.end(), b.name.begin(), b.name.end(), [](char x, char y) { return x < y; }); });
  str &o = *W->fp; o += "<!DOCTYPE " + W->doctype + " [\n";
  for (auto &n : W->notes) { o += "<!NOTATION " + n.name; if (n.pub) { o += " PUBLIC '" + n.p + "'"; if (n.sys) o += " '" + n.s + "'"; } else if (n.sys) o += " SYSTEM '" + n.s + "'"; o += ">\n"; }
  o += "]>\n"; W->notes.clear();
}
static void d_text(void *p, const char *, int) { W->A->XML_DefaultCurrent_((XML_Parser)p); }
static void d_start(void *p, const char *, const char **) { W->A->XML_DefaultCurrent_((XML_Parser)p); }
static void d_end(void *p, const char *) { W->A->XML_DefaultCurrent_((XML_Parser)p); }
static void d_pi(void *p, const char *, const char *) { W->A->XML_DefaultCurrent_((XML_Parser)p); }
static void d_mark(void *, const char *s, int n) { W->fp->append(s, n); }
static str loc(void *v) { XML_Parser p = (XML_Parser)v; str o; char b[200]; if (const char *u = W->A->XML_GetBase_(p)) o = str(" uri=\"") + u + "\""; snprintf(b, sizeof b, " byte=\"%ld\" nbytes=\"%d\" line=\"%lu\" col=\"%lu\"", (long)W->A->XML_GetCurrentByteIndex_(p), W->A->XML_GetCurrentByteCount_(p), W->A->XML_GetCurrentLineNumber_(p), W->A->XML_GetCurrentColumnNumber_(p)); return o + b; }
static str esct(const char *s, int n = -1) { str o; text(o, s, n < 0 ? strlen(s) : n); return o; }
static void m_start(void *p, const char *n, const char **a) {
  int spec = W->A->XML_GetSpecifiedAttributeCount_((XML_Parser)p), id = W->A->XML_GetIdAttributeIndex_((XML_Parser)p);
  str &o = *W->fp; o += str("<starttag name=\"") + n + "\"" + loc(p); if (!*a) { o += "/>\n"; return; }
  o += ">\n"; for (int i = 0; a[i]; i += 2) o += str("<attribute name=\"") + a[i] + "\" value=\"" + esct(a[i + 1]) + (i >= spec ? "\" defaulted=\"yes\"/>\n" : i == id ? "\" id=\"yes\"/>\n" : "\"/>\n"); o += "</starttag>\n";
}
static void m_end(void *p, const char *n) { *W->fp += str("<endtag name=\"") + n + "\"" + loc(p) + "/>\n"; }
static void m_pi(void *p, const char *t, const char *d) { *W->fp += str("<pi target=\"") + t + "\" data=\"" + esct(d) + "\"" + loc(p) + "/>\n"; }
static void m_comment(void *p, const char *d) { *W->fp += "<comment data=\"" + esct(d) + "\"" + loc(p) + "/>\n"; }
static void m_scd(void *p) { *W->fp += "<startcdata" + loc(p) + "/>\n"; }
static void m_ecd(void *p) { *W->fp += "<endcdata" + loc(p) + "/>\n"; }
static void m_text(void *p, const char *s, int n) { *W->fp += "<chars str=\"" + esct(s, n) + "\"" + loc(p) + "/>\n"; }
static void m_sdt(void *p, const char *n, const char *, const char *, int) { *W->fp += str("<startdoctype name=\"") + n + "\"" + loc(p) + "/>\n"; }
static void m_edt(void *p) { *W->fp += "<enddoctype" + loc(p) + "/>\n"; }
static void m_not(void *p, const char *n, const char *, const char *s, const char *pub) { str &o = *W->fp; o += str("<notation name=\"") + n + "\""; if (pub) o += str(" public=\"") + pub + "\""; if (s) o += " system=\"" + esct(s) + "\""; o += loc(p) + "/>\n"; }
static void m_ent(void *p, const char *n, int, const char *v, int vn, const char *, const char *s, const char *pub, const char *nota) {
  str &o = *W->fp; o += str("<entity name=\"") + n + "\"";
  if (v) { o += loc(p) + ">" + esct(v, vn) + "</entity/>\n"; return; }
  if (pub) o += str(" public=\"") + pub + "\""; o += " system=\"" + esct(s) + "\""; if (nota) o += str(" notation=\"") + nota + "\""; o += loc(p) + "/>\n";
}
static void m_sns(void *, const char *pre, const char *u) { str &o = *W->fp; o += "<startns"; if (pre) o += str(" prefix=\"") + pre + "\""; if (u) o += " ns=\"" + esct(u) + "\""; o += "/>\n"; }
static void m_ens(void *, const char *pre) { *W->fp += pre ? str("<endns prefix=\"") + pre + "\"/>\n" : str("<endns/>\n"); }
static int nosa(void *) { return 0; }
static int nocp(void *, const char *, XML_Encoding *) { return 0; }
static void complain(XML_Parser p, const char *f) { char b[100]; snprintf(b, sizeof b, ":%lu:%lu: ", W->A->XML_GetCurrentLineNumber_(p), W->A->XML_GetCurrentColumnNumber_(p)); W->out += str(f) + b + W->A->XML_ErrorString_(W->A->XML_GetErrorCode_(p)) + "\n"; }
static int feed(XML_Parser p, const char *f) {
  str d;
  if (f || !W->file_map) {
    strs pieces;
    if (f) { int fd = open(f, O_RDONLY); if (fd < 0) return 0; struct stat st; fstat(fd, &st); if (W->file_map && !S_ISREG(st.st_mode)) { close(fd); return 0; } bool ok = slurp_fd(fd, d); close(fd); if (!ok) return 0; if (W->file_map) pieces.push_back(d); else for (size_t i = 0; i < d.size(); i += 8192) pieces.push_back(d.substr(i, 8192)); }
    else pieces = *W->stdin_;
    if (W->file_map) { if (W->A->XML_Parse_(p, pieces[0].data(), (int)pieces[0].size(), 1) == XML_STATUS_ERROR) { complain(p, f); return 0; } return 1; }
    pieces.push_back("");
    for (auto &x : pieces) { void *b = W->A->XML_GetBuffer_(p, 8192); if (!b) return 0; memcpy(b, x.data(), x.size()); if (W->A->XML_ParseBuffer_(p, (int)x.size(), x.empty()) == XML_STATUS_ERROR) { complain(p, f ? f : "STDIN"); return 0; } }
  }
  return 1;
}
static int extent(XML_Parser parser, const char *ctx, const char *base, const char *sys, const char *) {
  XML_Parser e = W->A->XML_ExternalEntityParserCreate_(parser, ctx, nullptr);
  str f; if (!base || *sys == '/') f = sys; else { f = base; size_t s = f.rfind('/'); f = (s == str::npos ? str() : f.substr(0, s + 1)) + sys; }
  W->A->XML_SetBase_(e, f.c_str()); int r = feed(e, f.c_str()); W->A->XML_ParserFree_(e); return r;
}
struct Model { Res r; bool judged = true; };
static Model model(const Api *A, const strs &argv, strs in) {
  Model M; Wf w; w.A = A; w.stdin_ = &in; W = &w; bool sa = false, ns = false, pe = false, ext = false, cps = false, nota = false; char type = 0; const char *enc = nullptr, *dir = nullptr; M.r.status = 0;
  size_t i = 0; bool use = false;
  auto done = [&](int st) { M.r.status = st; M.r.out = w.out; return M; };
  for (; i < argv.size() && !use; i++) {
    const str &a = argv[i]; if (a.empty() || a[0] != '-') break; if (a == "--") { i++; break; } if (a == "-") use = true;
    for (size_t j = 1; j < a.size() && !use; j++) {
      const char **arg = nullptr;
      switch (a[j]) {
        case 'r': w.file_map = false; break; case 's': sa = true; break; case 'n': ns = true; break; case 'p': pe = ext = true; break; case 'x': ext = true; break; case 'w': cps = true; break;
        case 'm': type = 'm'; break; case 'c': type = 'c'; ns = false; break; case 't': type = 't'; break; case 'N': nota = true; break;
        case 'd': arg = &dir; break; case 'e': arg = &enc; break;
        case 'h': return done(0);
        case 'v': { w.out = str("xmlwf using ") + API_SUT.XML_ExpatVersion_() + "\n"; str l; for (const XML_Feature *f = API_SUT.XML_GetFeatureList_(); f->feature; f++) { if (!l.empty()) l += ", "; l += f->name; if (f->value) l += "=" + std::to_string(f->value); } w.out += l + "\n"; return done(0); }
        default: use = true;
      }
      if (arg) { if (j + 1 < a.size()) { *arg = a.c_str() + j + 1; break; } if (i + 1 == argv.size()) { use = true; break; } *arg = argv[++i].c_str(); break; }
    }
  }
  if (use) return done(2);
  strs files(argv.begin() + i, argv.end()); bool sin = files.empty(); if (sin) { w.file_map = false; files.push_back("STDIN"); }
  for (auto &f : files) {
    XML_Parser p = ns ? A->XML_ParserCreateNS_(enc, 1) : A->XML_ParserCreate_(enc); if (A->ref) { ref_XML_SetReparseDeferralEnabled(p, XML_FALSE); ref_XML_SetBillionLaughsAttackProtectionMaximumAmplification(p, 1e30f); }
    if (sa) A->XML_SetNotStandaloneHandler_(p, nosa); A->XML_SetParamEntityParsing_(p, pe ? XML_PARAM_ENTITY_PARSING_ALWAYS : XML_PARAM_ENTITY_PARSING_NEVER);
    str o, on; w.fp = &o; if (type == 't') dir = nullptr; if (type == 't') { A->XML_SetElementHandler_(p, [](void *, const char *, const char **) {}, [](void *, const char *) {}); A->XML_SetCharacterDataHandler_(p, [](void *, const char *, int) {}); A->XML_SetProcessingInstructionHandler_(p, [](void *, const char *, const char *) {}); }
    if (dir) {
      on = f.substr(sin || f.rfind('/') == str::npos ? 0 : f.rfind('/') + 1); str path = str(dir) + "/" + on; struct stat st;
      if (stat(dir, &st) || !S_ISDIR(st.st_mode) || (!geteuid() && st.st_uid != 65534) || on.empty() || (!stat(path.c_str(), &st) && S_ISDIR(st.st_mode))) { A->XML_ParserFree_(p); return done(1); }
      while (path.size() > 4 && path.find("//") != str::npos) path.erase(path.find("//"), 1);
      while (path.compare(0, 2, "./") == 0) path.erase(0, 2);
      on = path;
      if (type == 'm') { A->XML_UseParserAsHandlerArg_(p); A->XML_SetElementHandler_(p, m_start, m_end); A->XML_SetProcessingInstructionHandler_(p, m_pi); A->XML_SetCommentHandler_(p, m_comment); A->XML_SetCdataSectionHandler_(p, m_scd, m_ecd); A->XML_SetCharacterDataHandler_(p, m_text); A->XML_SetDoctypeDeclHandler_(p, m_sdt, m_edt); A->XML_SetEntityDeclHandler_(p, m_ent); A->XML_SetNotationDeclHandler_(p, m_not); A->XML_SetNamespaceDeclHandler_(p, m_sns, m_ens); o = "<document>\n"; }
      else if (type == 'c') { A->XML_UseParserAsHandlerArg_(p); A->XML_SetDefaultHandler_(p, d_mark); A->XML_SetElementHandler_(p, d_start, d_end); A->XML_SetCharacterDataHandler_(p, d_text); A->XML_SetProcessingInstructionHandler_(p, d_pi); }
      else { if (ns) A->XML_SetElementHandler_(p, n_start, n_end); else A->XML_SetElementHandler_(p, c_start, c_end); A->XML_SetCharacterDataHandler_(p, c_text); A->XML_SetProcessingInstructionHandler_(p, c_pi); if (nota) { A->XML_SetDoctypeDeclHandler_(p, c_sdt, c_edt); A->XML_SetNotationDeclHandler_(p, c_not); } }
    }
    if (cps) A->XML_SetUnknownEncodingHandler_(p, nocp, nullptr);
    A->XML_SetBase_(p, sin ? nullptr : f.c_str()); if (ext) A->XML_SetExternalEntityRefHandler_(p, extent);
    int r = feed(p, sin ? nullptr : f.c_str());
    A->XML_ParserFree_(p);
    if (dir) { if (type == 'm') o += "</document>\n"; if (r) M.r.files[on] = o; else M.r.files.erase(on); }
    if (!r) return done(2);
  }
  return done(0);
}
// ---- the program -----------------------------------------------------------------------------------------------------
static str here() { static str h; if (h.empty()) { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); h = str(b, n > 0 ? n : 0); for (int i = 0; i < 3; i++) h = h.substr(0, h.rfind('/')); } return h; }
static str rm_r(const str &d) { if (DIR *D = opendir(d.c_str())) { while (dirent *e = readdir(D)) { str n = e->d_name; if (n == "." || n == "..") continue; str p = d + "/" + n; struct stat st; if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rm_r(p); else unlink(p.c_str()); } closedir(D); } rmdir(d.c_str()); return ""; }
static void collect(const str &d, std::map<str, str> &o, const std::map<str, str> &had) { if (DIR *D = opendir(d.c_str())) { while (dirent *e = readdir(D)) { str n = e->d_name; if (n == "." || n == "..") continue; str p = d == "." ? n : d + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { collect(p, o, had); continue; } int fd = open(p.c_str(), O_RDONLY); str t; slurp_fd(fd, t); close(fd); auto h = had.find(p); if (h == had.end() || h->second != t) o[p] = t; } closedir(D); } }
static Res spawn(const char *bin, const strs &args, const strs &in, int how, const str &whole, const std::map<str, str> &had) {
  Res r; int exe = open((here() + "/build/lib/" + bin + "/xmlwf").c_str(), O_RDONLY | O_CLOEXEC); if (exe < 0) { r.status = -2; return r; }
  int po[2], pe[2], si[2] = {-1, -1}; if (pipe(po) || pipe(pe)) { r.status = -2; return r; }
  if (how == 0) { spew(".stdin", whole); si[0] = open(".stdin", O_RDONLY); unlink(".stdin"); }
  else { if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, si)) { r.status = -2; return r; } int sz = 1 << 22; setsockopt(si[1], SOL_SOCKET, SO_SNDBUFFORCE, &sz, sizeof sz); fcntl(si[1], F_SETFL, O_NONBLOCK); }
  pid_t p = fork();
  if (!p) {
    dup2(si[0], 0); dup2(po[1], 1); dup2(pe[1], 2); for (int f : {po[0], po[1], pe[0], pe[1], si[0], si[1]}) if (f > 2) close(f);
    rlimit l = {10, 10}; setrlimit(RLIMIT_CPU, &l); if (str(bin) == "xmlwf") { l = {1ul << 31, 1ul << 31}; setrlimit(RLIMIT_AS, &l); } l = {0, 0}; setrlimit(RLIMIT_CORE, &l);
    if (!geteuid()) { (void)!setgroups(0, nullptr); (void)!setgid(65534); (void)!setuid(65534); }
    std::vector<char *> av; static char nm[] = "xmlwf"; av.push_back(nm); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
    static char e1[] = "ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1", e2[] = "RUST_BACKTRACE=0", e3[] = "LC_ALL=C"; char *ev[] = {e1, e2, e3, nullptr};
    fexecve(exe, av.data(), ev); _exit(126);
  }
  close(exe); close(po[1]); close(pe[1]); if (si[0] >= 0) close(si[0]);
  if (how) { for (auto &x : in) if (!x.empty()) { for (int t = 0; send(si[1], x.data(), x.size(), MSG_NOSIGNAL) < 0 && (errno == EAGAIN || errno == ENOBUFS) && t < 2000; t++) usleep(1000); } close(si[1]); }
  slurp_fd(po[0], r.out); slurp_fd(pe[0], r.err); close(po[0]); close(pe[0]);
  int st; waitpid(p, &st, 0); r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  collect(".", r.files, had); return r;
}
struct Scratch { int back; str d; Scratch() { back = open(".", O_RDONLY | O_DIRECTORY); char t[] = "/tmp/rexpat-wf.XXXXXX"; if (!mkdtemp(t) || chmod(t, 0755) || chdir(t)) abort(); d = t; } ~Scratch() { if (fchdir(back)) abort(); close(back); rm_r(d); } };
static str repl(str s, const str &a, const str &b) { for (size_t i = 0; (i = s.find(a, i)) != str::npos; i += b.size()) s.replace(i, a.size(), b); return s; }
static Case at(Case c, const str &d) { c.note = repl(c.note, "@CWD@", d); for (auto &x : c.docs) x.data = repl(x.data, "@CWD@", d); return c; }   // absolute paths into the scratch directory
static strs split(const str &s) { strs v; if (s.empty()) return v; size_t a = 0; for (;;) { size_t b = s.find('\x1f', a); v.push_back(s.substr(a, b == str::npos ? b : b - a)); if (b == str::npos) return v; a = b + 1; } }
static std::map<str, str> layout(const Case &c) { // files of the case
  std::map<str, str> had; auto put = [&](str f, const str &d) { while (f.compare(0, 2, "./") == 0) f.erase(0, 2); if (f.empty() || f[0] == '/' || f.find("..") != str::npos || f.size() > 200 || f.find('\0') != str::npos || f.back() == '/') return; for (size_t i = 0; (i = f.find('/', i + 1)) != str::npos;) mkdir(f.substr(0, i).c_str(), 0755); spew(f, d); had[f] = d; };
  str main = c.base.empty() ? "doc.xml" : c.base, dir = main.rfind('/') == str::npos ? "" : main.substr(0, main.rfind('/') + 1);
  put(main, c.docs[0].data); for (size_t i = 1; i < c.docs.size(); i++) for (auto s : {"", "sub/"}) put(dir + s + c.docs[i].sysid, c.docs[i].data);
  mkdir("out", 0755); mkdir("out2", 0755);
  if (!geteuid()) for (auto d : {"out", "out2"}) if (chown(d, 65534, 65534)) {}
  return had;
}
static strs pieces(const Case &c, int how) { strs v; const str &d = c.docs[0].data; size_t a = 0; if (how) for (int n : c.docs[0].chunks) { size_t k = std::min<size_t>(std::min<size_t>(n, 8192), d.size() - a); if (k) v.push_back(d.substr(a, k)); a += k; } for (; a < d.size(); a += 8192) v.push_back(d.substr(a, 8192)); return v; }
static str diff(const Res &a, const Res &b) { return first_diff(a.show(), b.show(), "expected", "xmlwf"); }
static void rel(Res &r, const str &d) { std::map<str, str> o; for (auto &f : r.files) o[f.first.compare(0, d.size() + 1, d + "/") ? f.first : f.first.substr(d.size() + 1)] = f.second; r.files = o; }
static str check_wf(const Case &c0, const char *bin) {
  Scratch s; Case c = at(c0, s.d); auto had = layout(c); strs args = split(c.note); int how = c.p.empty() ? 0 : (int)c.p[0]; strs in = pieces(c, how);
  Res got = spawn(bin, args, in, how, c.docs[0].data, had); if (got.status == -2) { fprintf(stderr, "cannot run xmlwf\n"); abort(); }
  Model m = model(&API_REF, args, in); rel(m.r, s.d); str d = diff(m.r, got);
  if (!d.empty()) { // is it the library?
    Model own = model(&API_SUT, args, in); rel(own.r, s.d);
    if (diff(own.r, got).empty()) { Case k = c; k.acts.clear(); k.ns = 0; k.trip = 0; k.pe = 0; k.base = ""; k.flags = F_POS; bool np = c.note.find("-p") != str::npos; for (auto &a : args) if (a[0] == '-') { if (a.find('n') != str::npos) { k.ns = 1; k.sep = "|"; } if (a.find('p') != str::npos) np = true; } k.pe = np ? 2 : 0;
      k.docs[0].chunks.clear(); for (auto &p : in) if (how || c.note.find('r') != str::npos) k.docs[0].chunks.push_back((int)p.size());
      if (check_diff(k).empty()) { g_stats->skipped++; return ""; } }
    return "xmlwf " + esc(c.note) + "\n" + d + (got.err.empty() ? "" : "stderr: " + esc(got.err.substr(0, 500)) + "\n");
  }
  g_stats->evals++; g_stats->runs++; if (got.status == 0) g_stats->accepted++; else g_stats->rejected++;
  uint64_t h = 1469598103934665603ull; for (unsigned char x : c0.note + "\n" + repl(got.show(), s.d, "@CWD@")) { h ^= x; h *= 1099511628211ull; } g_stats->nontrivial++; g_stats->seen(h);
  if (args.size() == 0 || args[0].find('h') == str::npos) for (auto &f : got.files) { g_stats->extra[0]++; g_stats->extra[1] += f.second.size(); }
  return "";
}
// a name declared twice (order unspecified) or an identifier with an apostrophe in it (not quoted properly)
static bool odd_notations(const str &d) { std::map<str, int> n; size_t a = 0; while ((a = d.find("<!NOTATION ", a)) != str::npos) { size_t e = d.find(">\n", a), q = std::count(d.begin() + a, d.begin() + std::min(e, d.size()), '\''); a += 11; if (n[d.substr(a, d.find(' ', a) - a)]++ || (q != 2 && q != 4)) return true; } return false; }
// What must hold whatever the parser says: reading and mapping agree, a copy is the input, canonical XML is its own canonical form.
static str check_wfmeta(const Case &c0) {
  Scratch s; Case c = at(c0, s.d); auto had = layout(c); str f = c.base.empty() ? "doc.xml" : c.base; str o; strs none;
  auto run = [&](strs a, int how = 0) { a.push_back("-d"); a.push_back("out"); if (!how) a.push_back(f); Res r = spawn("xmlwf", a, pieces(c, how), how, c.docs[0].data, had); for (auto &x : r.files) unlink(x.first.c_str()); return r; };
  strs base; for (auto &a : split(c.note)) base.push_back(a);
  Res a = run(base); strs rr = base; rr.push_back("-r"); Res b = run(rr);
  str d = first_diff(a.show(), b.show(), "mapped", "read with -r"); if (!d.empty()) return "xmlwf " + esc(c.note) + "\n" + d;
  g_stats->evals++; g_stats->runs += 2; uint64_t h = 1469598103934665603ull; for (unsigned char x : c0.note + repl(a.show(), s.d, "@CWD@")) { h ^= x; h *= 1099511628211ull; } g_stats->nontrivial++; g_stats->seen(h); if (a.status == 0) g_stats->accepted++; else g_stats->rejected++;
  bool ext = false, ns = false; for (auto &x : base) { if (x == "-x" || x == "-p") ext = true; if (x == "-n") ns = true; }
  if (a.status != 0) { if (a.status != 2) return "exit status " + std::to_string(a.status) + "\n"; if (!a.files.empty()) return "an output file is left behind: " + a.show(); return ""; }
  if (a.files.size() != 1) return "no single output file: " + a.show();
  if (!ext) { // same document from standard input
    Res q = run(base, 1); if (q.status || q.files.size() != 1 || q.files.begin()->second != a.files.begin()->second || q.files.begin()->first != "out/STDIN") return "from standard input: " + first_diff(a.show(), q.show(), "from a file", "from standard input"); g_stats->steps++;
    if (c.docs[0].enc.empty()) { strs cc = base; cc.erase(std::remove(cc.begin(), cc.end(), "-n"), cc.end()); cc.push_back("-c"); Res k = run(cc); str want = c.docs[0].data; if (want.compare(0, 3, "\xEF\xBB\xBF") == 0) want.erase(0, 3); if (k.status || k.files.size() != 1 || k.files.begin()->second != want) return "-c does not copy: " + first_diff(want, k.files.empty() ? k.show() : k.files.begin()->second, "input", "copy"); g_stats->steps++; }
  }
  if (!ns) { str canon = a.files.begin()->second; spew("canon.xml", canon); Case k = c; auto h2 = had; h2["canon.xml"] = canon; f = "canon.xml"; had = h2; strs nn; if (std::find(base.begin(), base.end(), "-N") != base.end()) { if (odd_notations(canon)) return ""; nn.push_back("-N"); } Res z = run(nn); if (z.status || z.files.size() != 1 || z.files.begin()->second != canon) return "canonical form of the canonical form differs: " + first_diff(canon, z.files.empty() ? z.show() : z.files.begin()->second, "once", "twice"); g_stats->steps++; }
  return "";
}
static void big(Rng &r, str &d) { // beyond one block of the reader
  size_t at = d.find("</"); if (at == str::npos) return; str t; static const int SZ[] = {8192, 8191, 8193, 16384, 20000, 70000}; size_t n = SZ[r.below(6)]; if (at < n && r.chance(50)) n -= at;
  int k = r.below(4); if (k == 0) t = "<!--" + str(n, 'c') + "-->"; else if (k == 1) { while (t.size() < n) t += r.pick({"line\n", "\r\n", "\xC3\xA9", "text ", "&#65;", "<i/>"}); } else if (k == 2) t = "<i a='" + str(n, 'v') + "'/>"; else t = "<![CDATA[" + str(n, 'd') + "]]>";
  d.insert(at, t);
}
static void gen_wf(Rng &r, Case &c) {
  GenOpt o; o.ns = r.chance(50); o.invalid = r.chance(60) ? 0 : 60; o.notation = 40; o.ext = 40; o.attlist = 70; gen_case(r, o, c); random_chunks(r, c);
  for (auto &d : c.docs) d.behave = 0;
  if (r.chance(15)) big(r, c.docs[r.below((uint32_t)c.docs.size())].data);
  c.base = r.pick({"doc.xml", "in/doc.xml", "a b.xml", "in/x/doc.xml", "d\xC3\xA9.xml", "d\xFF.xml", "in/-n", "1", "in.d/.xml"});
  if (r.chance(15)) for (auto &d : c.docs) for (size_t i = 0; (i = d.data.find("dtd.dtd", i)) != str::npos; i += 11) d.data.insert(i, "sub/");
  if (r.chance(12)) { str dir = c.base.rfind('/') == str::npos ? "" : c.base.substr(0, c.base.rfind('/') + 1); auto &d = c.docs[0].data; for (size_t i = 1; i < c.docs.size(); i++) if (c.docs[i].sysid.size()) for (str q : {"'", "\""}) if (r.chance(60)) d = repl(d, q + c.docs[i].sysid + q, q + "@CWD@/" + dir + c.docs[i].sysid + q); }
  if (r.chance(20)) { auto &d = c.docs[r.chance(80) ? 0 : r.below((uint32_t)c.docs.size())]; str t, e = r.pick({"UTF-16LE", "UTF-16BE", "ISO-8859-1"}); if (transcode(d.data, e, t, true)) { d.data = t; d.enc = e; } }
  else if (r.chance(8)) c.docs[0].data.insert(0, "\xEF\xBB\xBF");
}
static void wf_case(Rng &r, Case &c) {
  gen_wf(r, c); strs a; auto opt = [&](const char *s, int pc) { if (r.chance(pc)) a.push_back(s); };
  opt("-s", 10); opt("-n", 45); opt("-p", 35); opt("-x", 35); opt("-w", 8); opt("-r", 35); opt("-N", 30); int t = r.below(8); if (t < 3) a.push_back("-m"); else if (t == 3) a.push_back("-c"); else if (t == 4 && r.chance(40)) a.push_back("-t"); if (r.chance(4)) a.push_back(r.pick({"-m", "-c", "-t", "-n"}));
  if (r.chance(12)) a.push_back(str("-e") + r.pick({"utf-8", "UTF-16", "iso-8859-1", "us-ascii", "bogus", "windows-1252", "UTF-16LE"})); else if (r.chance(5)) { a.push_back("-e"); a.push_back(r.pick({"UTF-8", "ISO-8859-1", "x"})); }
  r.chance(50) ? void() : std::reverse(a.begin(), a.end()); if (a.size() && a[0][1] == 'e' && a.size() > 1 && a.back() == "-e") std::reverse(a.begin(), a.end()); for (size_t i = 0; i + 1 < a.size(); i++) if (a[i][0] != '-' ) std::swap(a[i], a[i ? i - 1 : 0]);
  if (r.chance(85)) { if (r.chance(60)) { a.push_back("-d"); a.push_back(r.pick({"out", "out", "out2", "out/", "./out", "@CWD@/out"})); } else if (r.chance(90)) a.push_back("-dout"); else a.push_back("-dnowhere"); }
  if (r.chance(25)) { strs b; for (auto &x : a) if (!b.empty() && x.size() == 2 && x[0] == '-' && b.back().size() >= 2 && b.back()[0] == '-' && b.back()[1] != 'd' && b.back()[1] != 'e' && !(b.size() > 1 && (b[b.size() - 2] == "-d" || b[b.size() - 2] == "-e"))) b.back() += x[1]; else b.push_back(x); a = b; }
  if (r.chance(3)) { a.push_back(r.pick({"-q", "-", "-h", "-v", "-d", "-e", "--x", "-nz"})); }
  str f = c.base; c.p = {0};
  int k = r.below(20);
  if (k < 3) c.p = {(long)r.below(2)}; // standard input
  else { if (f[0] == '-' || r.chance(5)) a.push_back("--"); if (k == 3) { a.push_back(r.pick({"missing.xml", "in", "", "in/", "."})); } a.push_back(f); if (k == 4) a.push_back(f); if (k == 5 && c.docs.size() > 1) a.push_back((f.rfind('/') == str::npos ? "" : f.substr(0, f.rfind('/') + 1)) + c.docs[r.range(1, (int)c.docs.size() - 1)].sysid); if (k == 6) a.push_back("missing.xml"); if (r.chance(6)) for (auto &x : a) if (x == f) x = "@CWD@/" + f; }
  c.note.clear(); for (size_t i = 0; i < a.size(); i++) c.note += (i ? "\x1f" : "") + a[i];
}
__attribute__((constructor)) static void reg() {
  add("wf", [](Rng &r, uint64_t, Case &c) { wf_case(r, c); }, [](const Case &c) { return check_wf(c, "xmlwf"); });
  add("wf-asan", [](Rng &r, uint64_t, Case &c) { wf_case(r, c); }, [](const Case &c) { return check_wf(c, "xmlwfasan"); });
  add("wf-meta", [](Rng &r, uint64_t, Case &c) { gen_wf(r, c); strs a; for (auto x : {"-n", "-x", "-p", "-N", "-s"}) if (r.chance(20)) a.push_back(x); c.note.clear(); for (size_t i = 0; i < a.size(); i++) c.note += (i ? "\x1f" : "") + a[i]; }, check_wfmeta);
}
#endif
