// API histories: the same random sequence of calls on rexpat and on the reference, every return value and state compared.
#include "oracles.h"
#include <map>
#include <cstring>
#include <algorithm>
typedef std::string str;
enum { O_PARSE, O_BUF, O_FINAL, O_STOP, O_RESUME, O_RESET, O_SETENC, O_BASE, O_FOREIGN, O_PE, O_TRIP, O_STATE, O_HANDLER, O_DEFCUR, O_BADARGS, O_CHILD, O_EMPTY, O_BIGBUF, O_ARG, O_MEM, O_NOPS };
struct Prog : Runner {
  Prog(const Api &a, const Case &c) : Runner(a, c) {}
  size_t at = 0; bool failed = false; void *buf = nullptr; int bufn = 0;
  void q(const str &s) { log('Q', s); }
  str setBase; // (the reference prepends to a base set after an error what the failing token left in the string pool)
  str baseOf(const XML_Char *b) { str s = xe(b); return A.ref && failed && !setBase.empty() && s.size() > setBase.size() && s.compare(s.size() - setBase.size(), str::npos, setBase) == 0 ? setBase : s; }
  void state(XML_Parser p, int posn, bool err = false) {
    XML_ParsingStatus st; memset(&st, 0, sizeof st); int e; const XML_Char *b; { InLib g; A.XML_GetParsingStatus_(p, &st); e = A.XML_GetErrorCode_(p); b = A.XML_GetBase_(p); }
    str s = "state " + std::to_string(st.parsing) + (st.finalBuffer && st.parsing == XML_SUSPENDED ? "f" : "") + (err ? " err " + std::to_string(e) : str()) + " base " + baseOf(b);
    if (posn) { InLib g; char t[80]; snprintf(t, 80, " @%ld:%lu:%lu+%d", (long)A.XML_GetCurrentByteIndex_(p), (unsigned long)A.XML_GetCurrentLineNumber_(p), (unsigned long)A.XML_GetCurrentColumnNumber_(p), A.XML_GetCurrentByteCount_(p)); s += t; }
    if (posn == 2) { InLib g; s = s.substr(0, s.find(" @")) + " @" + std::to_string((long)A.XML_GetCurrentByteIndex_(p)) + "+" + std::to_string(A.XML_GetCurrentByteCount_(p)); }   // (lines: the reference counts a CR LF cut by a suspension in the epilog twice)
    q(s);
  }
  // the position an error or a fresh parser has is compared; between calls in the middle of a parse it is unspecified
  bool ended(XML_Parser p) { XML_ParsingStatus st; memset(&st, 0, sizeof st); InLib g; A.XML_GetParsingStatus_(p, &st); return st.parsing == XML_INITIALIZED; }
  bool suspended(XML_Parser p) { XML_ParsingStatus st; memset(&st, 0, sizeof st); InLib g; A.XML_GetParsingStatus_(p, &st); return st.parsing == XML_SUSPENDED; }
  void go() {
    XML_Parser p = make_parser(A, C, ""); if (!p) { T.created = false; return; }
    const Doc &d = C.docs[0]; stack.push_back({p, &d}); configure(p);
    long base = 0; (void)base; bool over = false;
    auto given = [&](int st, bool fin = false) {
      // aborted in a callback while the piece ended inside a token: the reference reports success and a finished parser
      if (A.ref && st == XML_STATUS_OK && !fin) { XML_ParsingStatus ps; memset(&ps, 0, sizeof ps); { InLib g; A.XML_GetParsingStatus_(p, &ps); } if (ps.parsing == XML_FINISHED && !ps.finalBuffer) { q("-> 0"); failed = true; q(std::string("state 2 err 35 base ") + baseOf(A.XML_GetBase_(p))); return; } }
      q("-> " + std::to_string(st)); if (st == XML_STATUS_ERROR) failed = true; if (st == XML_STATUS_ERROR) state(p, false, true); };
    for (size_t i = 0; i + 1 < C.p.size() && !over; i += 2) {
      long op = C.p[i], arg = C.p[i + 1]; if (T.overflow) break;
      switch (op) {
        case O_PARSE: case O_FINAL: { size_t n = op == O_FINAL ? d.data.size() - std::min(at, d.data.size()) : std::min<size_t>(arg, d.data.size() - std::min(at, d.data.size())); str x(d.data, std::min(at, d.data.size()), n); int st; if ((failed || !at) && !n && op == O_PARSE) break;   // (an empty piece after an error: older versions accept it; as the first piece: newer versions settle the encoding)
          XML_ParsingStatus ps; memset(&ps, 0, sizeof ps); { InLib g; A.XML_GetParsingStatus_(p, &ps); }
          { InLib g; st = A.XML_Parse_(p, x.data(), (int)n, op == O_FINAL); } if (ps.parsing < XML_FINISHED) at += n; q(str("parse ") + std::to_string(n)); given(st); std::fill(x.begin(), x.end(), '#'); break; }
        case O_BUF: { size_t n = std::min<size_t>(arg, d.data.size() - std::min(at, d.data.size())); void *b; { InLib g; b = A.XML_GetBuffer_(p, (int)n + (arg & 7)); } q("getbuffer " + str(b ? "ok" : "null")); if (!b) { if (n + (arg & 7)) state(p, false, true);
            XML_ParsingStatus ps; memset(&ps, 0, sizeof ps); { InLib g; A.XML_GetParsingStatus_(p, &ps); } if (ps.parsing >= XML_FINISHED) { int st; { InLib g; st = A.XML_ParseBuffer_(p, 0, arg >> 3 & 1); } q("parsebuffer -> " + std::to_string(st)); state(p, false, true); }
            break; }
          if (n) memcpy(b, d.data.data() + at, n); int st; { InLib g; st = A.XML_ParseBuffer_(p, (int)n, 0); } at += n; given(st); break; }
        case O_BIGBUF: { void *b; { InLib g; b = A.XML_GetBuffer_(p, arg < 0 ? (int)arg : (int)(arg * 37 + 1)); } q("getbuffer only " + str(b ? "ok" : "null")); if (!b) state(p, false, true); break; }
        case O_EMPTY: { if (failed || !at) break; int st; { InLib g; st = A.XML_Parse_(p, arg & 1 ? "" : nullptr, 0, 0); } q("parse nothing"); given(st); break; }
        case O_STOP: { if (!suspended(p)) break; int st;   // (outside a handler, only a suspended parser may be stopped)
          { InLib g; st = A.XML_StopParser_(p, arg & 1); } q("stop -> " + std::to_string(st)); state(p, false, st == XML_STATUS_ERROR); break; }
        case O_RESUME: { int st; { InLib g; st = A.XML_ResumeParser_(p); } q("resume"); given(st); break; }
        case O_RESET: { auto e = xc(arg & 1 ? "UTF-8" : "ISO-8859-1"); XML_Bool k; { InLib g; k = A.XML_ParserReset_(p, (arg & 3) == 3 ? nullptr : e.c_str()); } q("reset " + std::to_string((int)k)); at = 0; failed = false; state(p, true); if (A.ref) { InLib g; ref_XML_SetReparseDeferralEnabled(p, XML_FALSE); ref_XML_SetBillionLaughsAttackProtectionMaximumAmplification(p, 1e30f); } if (arg & 4) { handlers = C.handlers; configure(p); } else { InLib g; handlers = 0; A.XML_SetUserData_(p, this); } break; }
        case O_SETENC: { static const char *const E[] = {"UTF-8", "UTF-16", "ISO-8859-1", "US-ASCII", "x-sb1", "bogus", "utf-16LE"}; auto e = xc(E[arg % 7]); int st; { InLib g; st = A.XML_SetEncoding_(p, arg % 8 == 7 ? nullptr : e.c_str()); } q("setencoding -> " + std::to_string(st)); break; }
        case O_BASE: { auto e = xc("b" + std::to_string(arg % 50) + str(arg % 60, 'x')); int st; { InLib g; st = A.XML_SetBase_(p, arg % 6 == 5 ? nullptr : e.c_str()); } if (st == XML_STATUS_OK) setBase = arg % 6 == 5 ? str() : xe(e.c_str()); q("setbase -> " + std::to_string(st)); state(p, false); break; }
        case O_FOREIGN: { int st; { InLib g; st = A.XML_UseForeignDTD_(p, arg & 1); } q("useforeigndtd -> " + std::to_string(st)); break; }
        case O_PE: { int st; { InLib g; st = A.XML_SetParamEntityParsing_(p, (XML_ParamEntityParsing)(arg % 3)); } q("setpe -> " + std::to_string(st)); break; }
        case O_TRIP: { InLib g; A.XML_SetReturnNSTriplet_(p, arg & 1); break; }
        case O_STATE: state(p, ended(p) ? 1 : suspended(p) ? 2 : 0); { int o = -5, s = -5; const char *c; { InLib g; c = A.XML_GetInputContext_(p, &o, &s); } if (ended(p)) q(str("context ") + (c ? "y" : "n")); } break;
        case O_HANDLER: { int h = (int)(arg % H_N); if (h == H_SDOCTYPE || h == H_START || h == H_ATTDECL) h = H_END; if (arg & 256) handlers |= HB(h); else handlers &= ~HB(h); install(p, handlers, HB(h)); break; }
        case O_BADARGS: { int st = 0; str s = "badargs "; XML_ParsingStatus ps; { InLib g; A.XML_GetParsingStatus_(p, &ps); } { InLib g; switch (arg % 6) { case 4: case 5: st = A.ref && (arg % 6 == 4 || ps.parsing < XML_FINISHED) ? A.XML_Parse_(p, "x", -1, 0) : A.XML_ParseBuffer_(p, arg % 6 == 4 ? -1 - (int)(arg % 100) : 0x7fffffff, arg >> 6 & 1); break; case 0: st = A.XML_Parse_(p, "x", -1 - (int)(arg % 100), 0); break; case 1: st = A.XML_Parse_(p, nullptr, 3, 0); break; case 2: st = A.XML_GetBuffer_(p, -1 - (int)(arg % 100)) ? 1 : 0; break; default: st = A.XML_GetBuffer_(p, 0x7fffffff) ? 1 : 0; } } q(s + std::to_string(arg % 6) + " -> " + std::to_string(st)); if (arg % 6 != 3) state(p, false, true); break; }
        case O_CHILD: { auto cx = xc(arg & 2 ? "e\fxml=http://www.w3.org/XML/1998/namespace" : "nosuch"); XML_Parser c; { InLib g; c = A.XML_ExternalEntityParserCreate_(p, cx.c_str(), nullptr); } q(str("child ") + (c ? "y" : "n")); if (!c) break;
          static const char *const X[] = {"<x/>", "t", "<!ELEMENT q ANY>", "<x>", "", "&amp;", "%q;", "<?xml encoding='UTF-8'?>"}; const char *x = X[arg / 8 % 8]; Doc cd; cd.data = x; stack.push_back({c, &cd}); depth++; int st; { InLib g; st = A.XML_Parse_(c, x, (int)strlen(x), arg & 1); } q("child parse -> " + std::to_string(st)); state(c, false, st == XML_STATUS_ERROR); stack.pop_back(); depth--; { InLib g; A.XML_ParserFree_(c); } break; }
        case O_MEM: { // memory from the parser's allocator: kept over reallocation, and nothing of it left at the end
          size_t n = 1 + arg % 300, m = 1 + arg * 7 % 5000; unsigned char *b; { InLib g; b = (unsigned char *)A.XML_MemMalloc_(p, n); } if (!b) { q("malloc null"); break; } memset(b, (int)arg & 255, n);
          if (arg & 1) { unsigned char *k; { InLib g; k = (unsigned char *)A.XML_MemRealloc_(p, b, m); } bool ok = k != nullptr; for (size_t j = 0; ok && j < std::min(n, m); j++) ok = k[j] == (arg & 255); if (k) b = k; q(ok ? "realloc ok" : "realloc lost data"); }
          { InLib g; if (arg & 2) { A.XML_MemFree_(p, nullptr); void *x = A.XML_MemRealloc_(p, nullptr, n); if (x) { memset(x, 1, n); A.XML_MemFree_(p, x); } } A.XML_MemFree_(p, b); } break; }
        case O_ARG: { InLib g; A.XML_SetUserData_(p, this); break; }
      }
    }
    state(p, false); stack.pop_back(); { InLib g; A.XML_ParserFree_(p); } T.raw_events = rawEv; T.status = 0; T.err = 0;
  }
};
static Trace run_prog(const Api &a, const Case &c) {
  long b = g_alloc.live; Prog p(a, c); p.go(); p.T.leak = g_alloc.live - b;
  // text pieces may be merged differently around calls: compare text between other events
  for (auto &e : p.T.ev) e.doc = nullptr;
  return std::move(p.T);
}
static str chk_api(const Case &c) {
  Trace r = run_prog(API_REF, c), s = run_prog(API_SUT, c); if (r.overflow || s.overflow) { g_stats->skipped++; return ""; }
  g_stats->evals++; g_stats->trace(s, 0); g_stats->steps += c.p.size() / 2;
  if (!s.inv.empty()) return invs(s);
  if (getenv("HX_SHOW")) printf("%s\n======\n%s\n", r.render(0).c_str(), s.render(0).c_str());
  str d = first_diff(r.render(0), s.render(0), "reference", "rexpat");
  if (!d.empty()) { Case k = c; if (ref_brackets(k)) return chk_api(k); if (ref_include(c, r)) { g_stats->skipped++; return ""; } }
  if (!d.empty()) return "the histories differ\n" + d;
  if (s.leak) return "  library blocks still allocated: " + std::to_string(s.leak) + "\n";
  return "";
}
// calls on no parser, and the calls that need none
static str chk_noparser(const Case &c) {
  str o[2]; int n = 0;
  for (const Api *A : {&API_REF, &API_SUT}) {
    str &s = o[n++]; auto put = [&](const char *w, long v) { s += str(w) + " " + std::to_string(v) + "\n"; };
    for (int e = -2; e < 60; e++) { if (e >= 42) continue; const XML_LChar *m = A->XML_ErrorString_((XML_Error)e); s += std::to_string(e) + " " + (m ? str((const char *)m) : str("null")) + "\n"; }
    XML_Parser z = nullptr; InLib g;
    put("parse", A->XML_Parse_(z, "<a/>", 4, 1)); put("parsebuffer", A->XML_ParseBuffer_(z, 0, 1)); put("getbuffer", A->XML_GetBuffer_(z, 1) != nullptr); put("stop", A->XML_StopParser_(z, 1)); put("resume", A->XML_ResumeParser_(z));
    put("error", A->XML_GetErrorCode_(z)); put("reset", A->XML_ParserReset_(z, nullptr)); put("setencoding", A->XML_SetEncoding_(z, nullptr)); put("setbase", A->XML_SetBase_(z, nullptr)); put("getbase", A->XML_GetBase_(z) != nullptr);
    put("idx", A->XML_GetCurrentByteIndex_(z)); put("line", A->XML_GetCurrentLineNumber_(z)); put("col", A->XML_GetCurrentColumnNumber_(z)); put("cnt", A->XML_GetCurrentByteCount_(z)); put("spec", A->XML_GetSpecifiedAttributeCount_(z)); put("id", A->XML_GetIdAttributeIndex_(z));
    put("pe", A->XML_SetParamEntityParsing_(z, XML_PARAM_ENTITY_PARSING_ALWAYS)); put("foreign", A->XML_UseForeignDTD_(z, 1)); put("child", A->XML_ExternalEntityParserCreate_(z, nullptr, nullptr) != nullptr);
    put("malloc", A->XML_MemMalloc_(z, 5) != nullptr); put("realloc", A->XML_MemRealloc_(z, nullptr, 5) != nullptr); put("salt", A->XML_SetHashSalt_(z, 5)); int of = 3, sz = 4; put("context", A->XML_GetInputContext_(z, &of, &sz) != nullptr);
    A->XML_ParserFree_(z); A->XML_DefaultCurrent_(z); A->XML_SetReturnNSTriplet_(z, 1); A->XML_SetUserData_(z, nullptr); A->XML_UseParserAsHandlerArg_(z); A->XML_MemFree_(z, nullptr); A->XML_FreeContentModel_(z, nullptr); A->XML_SetExternalEntityRefHandlerArg_(z, nullptr);
    A->XML_SetElementHandler_(z, nullptr, nullptr); A->XML_SetStartElementHandler_(z, nullptr); A->XML_SetEndElementHandler_(z, nullptr); A->XML_SetCharacterDataHandler_(z, nullptr); A->XML_SetProcessingInstructionHandler_(z, nullptr); A->XML_SetCommentHandler_(z, nullptr);
    A->XML_SetCdataSectionHandler_(z, nullptr, nullptr); A->XML_SetStartCdataSectionHandler_(z, nullptr); A->XML_SetEndCdataSectionHandler_(z, nullptr); A->XML_SetDefaultHandler_(z, nullptr); A->XML_SetDefaultHandlerExpand_(z, nullptr); A->XML_SetDoctypeDeclHandler_(z, nullptr, nullptr);
    A->XML_SetStartDoctypeDeclHandler_(z, nullptr); A->XML_SetEndDoctypeDeclHandler_(z, nullptr); A->XML_SetUnparsedEntityDeclHandler_(z, nullptr); A->XML_SetNotationDeclHandler_(z, nullptr); A->XML_SetNamespaceDeclHandler_(z, nullptr, nullptr); A->XML_SetStartNamespaceDeclHandler_(z, nullptr);
    A->XML_SetEndNamespaceDeclHandler_(z, nullptr); A->XML_SetNotStandaloneHandler_(z, nullptr); A->XML_SetExternalEntityRefHandler_(z, nullptr); A->XML_SetSkippedEntityHandler_(z, nullptr); A->XML_SetUnknownEncodingHandler_(z, nullptr, nullptr); A->XML_SetElementDeclHandler_(z, nullptr);
    A->XML_SetAttlistDeclHandler_(z, nullptr); A->XML_SetEntityDeclHandler_(z, nullptr); A->XML_SetXmlDeclHandler_(z, nullptr);
  }
  { // what the library says about itself
    const Api &A = API_SUT; str w; XML_Expat_Version v = A.XML_ExpatVersionInfo_(); w = "expat_" + std::to_string(v.major) + "." + std::to_string(v.minor) + "." + std::to_string(v.micro);
    if (w != str((const char *)A.XML_ExpatVersion_())) return "  XML_ExpatVersion says " + str((const char *)A.XML_ExpatVersion_()) + ", XML_ExpatVersionInfo " + w + "\n";
    std::map<int, str> ref; for (const XML_Feature *f = API_REF.XML_GetFeatureList_(); f->feature; f++) ref[f->feature] = str((const char *)f->name) + "=" + std::to_string(f->value);
    std::map<int, str> own; for (const XML_Feature *f = A.XML_GetFeatureList_(); f->feature; f++) own[f->feature] = str((const char *)f->name) + "=" + std::to_string(f->value);
    for (int f : {XML_FEATURE_SIZEOF_XML_CHAR, XML_FEATURE_SIZEOF_XML_LCHAR, XML_FEATURE_DTD, XML_FEATURE_NS, XML_FEATURE_CONTEXT_BYTES, XML_FEATURE_UNICODE}) if (own[f] != ref[f]) return "  feature " + std::to_string(f) + ": expected " + ref[f] + ", is " + own[f] + "\n";
  }
  g_stats->evals++; g_stats->distinct += 1; g_stats->nontrivial += 1;
  return o[0] == o[1] ? "" : first_diff(o[0], o[1], "reference", "rexpat");
}
static void gen_api(Rng &r, Case &c) {
  common_cfg(r, c); c.flags = 0; c.base = ""; c.trip = 0; c.foreign = 0; if (c.ns == 2) c.ns = 1; if (r.chance(20)) { c.handlers = H_ALL; if (r.chance(50)) c.handlers &= ~HB(H_DEFEXPAND); } else if (r.chance(20)) c.handlers = (uint32_t)r.next() & H_ALL;
  GenOpt o; o.ns = c.ns; o.elems = 5; o.ents = 30; o.invalid = 25; o.longtok = 1; gen_case(r, o, c);
  for (auto &d : c.docs) { d.chunks.clear(); d.mode = 0; }
  c.sep = "#"; bool pct = false, ents = c.docs.size() > 1; for (auto &d : c.docs) { if (&d != &c.docs[0] && d.data.find('%') != str::npos) pct = true; if (d.data.find("ENTITY") != str::npos) ents = true; }
  if (pct) c.pe = 0;
  int n = r.range(3, 25); size_t L = c.docs[0].data.size() + 1;
  auto op = [&](int o, long a) { c.p.push_back(o); c.p.push_back(a); };
  while (n--) {
    int k = r.below(100);
    if (k < 22) op(O_PARSE, r.chance(50) ? r.below(L) : r.below(8)); else if (k < 32) op(O_BUF, r.chance(50) ? r.below(L) : r.below(8)); else if (k < 40) op(O_FINAL, 0); else if (k < 44) op(O_EMPTY, r.below(2));
    else if (k < 48) op(O_STOP, r.below(2)); else if (k < 56) op(O_RESUME, 0); else if (k < 60) op(O_RESET, r.below(8)); else if (k < 64) op(O_SETENC, r.below(8)); else if (k < 68) op(O_BASE, r.below(100)); else if (k < 71) op(O_FOREIGN, r.below(2));
    else if (k < 74) op(O_PE, pct ? 0 : r.below(3)); else if (k < 76) op(O_TRIP, r.below(2)); else if (k < 82) op(O_STATE, 0); else if (k < 87) op(O_HANDLER, r.below(512)); else if (k < 88) op(O_MEM, r.below(100000)); else if (k < 92) op(O_BADARGS, r.below(400)); else if (k < 95) op(O_CHILD, r.below(64)); else op(O_BIGBUF, r.below(100));
  }
  if (r.chance(60)) for (int k = r.range(1, 4); k--;) { Act a; a.ev = r.below(25); static const int K[] = {A_STOP_RES, A_STOP_RES, A_STOP_RES, A_STOP_FIN, A_STATUS, A_SETENC, A_SETBASE, A_PEPARSING, A_FOREIGN, A_STOP_TWICE}; a.kind = K[r.below(10)]; a.arg = a.kind == A_PEPARSING ? (pct ? 0 : r.below(3)) : r.below(H_N); if (ents && (a.kind == A_STOP_RES || a.kind == A_STOP_TWICE || a.kind == A_STOP_FIN)) continue; c.acts.push_back(a); }   // (suspended inside an entity: the reference resumes it differently, see DESIGN.md)
}
__attribute__((constructor)) static void reg() {
  add("api", [](Rng &r, uint64_t, Case &c) { gen_api(r, c); }, chk_api);
  add("noparser", [](Rng &r, uint64_t, Case &c) { Doc d; d.data = "x"; c.docs.push_back(d); }, chk_noparser, 1);
}
