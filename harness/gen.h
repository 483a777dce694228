#pragma once
#include "case.h"
#include "rng.h"
#include <map>
struct GenOpt {
  bool ns = false;         // namespace declarations and prefixed names
  int dtd = 60;            // % of documents with a doctype
  int subset = 80;         // % of doctypes with an internal subset
  int ext = 30;            // % chance of external subset / entities
  int pe = 30;             // % parameter entity use
  int multibyte = 20;      // % multi-byte characters in text and names
  int elems = 12;          // element budget
  int depth = 6;
  int attrs = 3;
  int ents = 30;           // % entity references in content
  int comments = 15, pis = 10, cdata = 15;
  int ws = 40;             // % extra whitespace
  int longtok = 4;         // % long names/values
  int xmldecl = 40;
  int invalid = 0;         // % per-case probability of mutations
  int attlist = 50, elemdecl = 40, notation = 20;
  int nl = 30;             // % odd newlines in text
  int undeclared = 5;      // % references to undeclared entities
  int recursive = 3;
  int dupattr = 2;
  int bom = 0;             // % of external general entities that begin with a byte order mark
  int standalone = 30;     // % of XML declarations that say whether the document is standalone
};
struct Gen {
  Rng &r; GenOpt o; std::string out;
  std::vector<std::string> elemNames, attNames, entNames, peNames, prefixes, notNames; // in scope
  std::vector<std::pair<std::string, std::string>> declAtts; // element and attribute of the declarations so far
  std::vector<std::string> genEnts, peEnts, extEnts, unparsedEnts;
  std::vector<Doc> extDocs;
  int elemsLeft;
  std::vector<std::vector<std::string>> nsScope;
  bool inEntity = false; bool allowRefs = true;
  std::string encName;     // encoding pseudo-attribute to declare
  Gen(Rng &rr, const GenOpt &oo) : r(rr), o(oo), elemsLeft(oo.elems) {}
  std::string S(bool must = true);
  std::string name(); std::string longname(); std::string qname(bool attr);
  std::string text(int n, bool cd = false); std::string nl();
  std::string ref(bool attr); std::string attval(char q, bool dflt = false);
  std::string attrs(const std::string &elem); std::string content(int depth); std::string element(int depth);
  std::string comment(); std::string pi(); std::string cdata(); std::string misc();
  std::string xmldecl(bool text); std::string doctype(const std::string &root);
  std::string decls(bool external, int n); std::string elemdecl(); std::string attlist(); std::string entity(bool external); std::string notation();
  std::string cm(int d); std::string pubid(); std::string extid(const std::string &sys, bool pubOnlyOk = false);
  std::string entval(bool external);
  void document(Case &c);
};
void gen_case(Rng &r, const GenOpt &o, Case &c);           // document + external entities
void mutate(Rng &r, std::string &s, int n);                // byte/token level corruption
std::string soup(Rng &r, int n, int kind);                 // token soup
std::vector<int> gen_chunks(Rng &r, size_t len, int style);
void random_chunks(Rng &r, Case &c);
// transcoding from well-formed UTF-8; false when not representable / not valid UTF-8
bool transcode(const std::string &u8, const std::string &enc, std::string &out, bool bom);
bool utf8_decode(const std::string &s, std::vector<uint32_t> &cp);
void utf8_put(std::string &o, uint32_t c);
extern const std::vector<std::string> TOKENS;
