// A Case is one fully explicit, serialisable workload: documents, feed schedule,
// parser configuration and in-callback actions.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <set>

enum { H_START, H_END, H_CHARS, H_PI, H_COMMENT, H_SCDATA, H_ECDATA, H_DEFAULT, H_SDOCTYPE, H_EDOCTYPE,
       H_ELEMDECL, H_ATTDECL, H_ENTDECL, H_XMLDECL, H_UNPARSED, H_NOTATION, H_SNS, H_ENS, H_NOTSTANDALONE,
       H_EXT, H_SKIPPED, H_UNKENC, H_DEFEXPAND, H_N };
#define HB(x) (1u << (x))
static const uint32_t H_ALL = (1u << H_N) - 1;
static const uint32_t H_ALL_NODEF = H_ALL & ~HB(H_DEFAULT) & ~HB(H_DEFEXPAND);

enum { F_POS = 1, F_RAW = 2, F_CTX = 4, F_INCTX = 8, F_NOTSA0 = 16, F_PARSERARG = 32, F_EXTARG = 64,
       F_FEEDLOG = 128, F_NOCOUNT = 256, F_CTORENC = 512, F_MEMCOPY = 2048, F_KEEPGOING = 4096, F_ZEROOK = 8192, F_POSSOME = 16384, F_LATE = 32768, F_MIGRATE = 65536 };

enum { A_STOP_RES, A_STOP_FIN, A_DEFCUR, A_UNSET, A_SET, A_POS, A_STOP_TWICE, A_SETENC, A_SETBASE, A_PEPARSING, A_FOREIGN, A_STATUS, A_NKINDS };

struct Doc {
  std::string sysid;      // which external identifier this text answers (docs[0]: the document entity)
  std::string data;       // bytes
  std::string enc;        // protocol encoding ("" none)
  std::vector<int> chunks;
  int mode = 0;           // 1 ParseBuffer, 2 alternate, 4 separate empty final call, 8 oversized GetBuffer
  int behave = 0;         // external entity: 0 parse, 1 return 0 without parsing, 2 return 1 without parsing, 3 parse, but return 0, 4 parse, return 1 whatever came of it, 5 parse a part of it only, 6 as 4, and try to reset the child, 7 as 5, and keep the child for later
};
struct Act { uint32_t ev; int kind; int arg; };
struct Case {
  std::string oracle;
  int ns = 0; std::string sep = "|"; int trip = 0; int pe = 0; int foreign = 0; long salt = 0;
  uint32_t handlers = H_ALL_NODEF; uint32_t flags = 0;
  std::string base;
  std::vector<Doc> docs;
  std::vector<Act> acts;
  std::vector<long> p;    // oracle-specific parameters
  std::string note;
  std::string ser() const;
  static bool parse(const std::string &, Case &);
};
std::string esc(const std::string &);
std::string unesc(const std::string &);
// rescanning a long token for every piece is quadratic: bound it
inline void bound_rescans(Case &c) { for (auto &d : c.docs) while (d.chunks.size() > 8 && (double)std::min(d.chunks.size(), d.data.size()) * d.data.size() > 2e7) { std::vector<int> n; for (size_t i = 0; i + 1 < d.chunks.size(); i += 2) n.push_back(d.chunks[i] + d.chunks[i + 1]); d.chunks = n; } }
