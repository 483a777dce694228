#pragma once
#include "api.h"
#include "case.h"
#include "alloc.h"
#include <map>
#include <memory>

struct Pos { unsigned long line = 0, col = 0; long idx = 0; int cnt = 0; };
struct Event {           // one (possibly coalesced) callback
  char k;                // one-letter kind
  std::string text;      // canonical text without position
  Pos pos;
  int depth;             // external-entity nesting
  const std::string *doc;// bytes of the entity being parsed
  uint32_t raw;          // raw callback number of the first piece
  int npieces = 1;
  bool internal = false;
};
struct Trace {
  std::vector<Event> ev;
  std::string render(uint32_t flags) const;
  uint64_t hash(uint32_t flags) const;
  int status = -1, err = -1;
  uint32_t raw_events = 0;
  long leak = 0;         // library blocks alive after everything was freed
  long peak = 0, allocs = 0;
  bool overflow = false;
  bool created = true;
  std::vector<std::string> inv; // violated invariants seen while running
  std::map<char, long> counts;
  void count(std::map<std::string, long> &m) const;
};

struct UE { unsigned magic = 0x5EED; int released = 0; bool wants = false; signed char len[256]; };   // what an unknown encoding carries as its data
struct Runner {
  const Api &A; const Case &C; Trace T;
  std::vector<std::pair<XML_Parser, const Doc *>> stack; // active parsers, innermost last
  uint32_t rawEv = 0;
  uint32_t handlers;
  uint32_t maxEvents = 100000;
  std::vector<UE *> encs; void enc_check();   // (called when no parser is left)
  int depth = 0; bool stopAll = false;
  bool useBase = true, quiet = false; Event none;   // quiet: nothing is logged
  uint32_t nSusp = 0;
  XML_Parser root = nullptr;
  std::vector<std::pair<XML_Parser, const Doc *>> kept; // parsers of entities that outlive the handler's call
  // hook: called in every callback after logging (metamorphic monitors)
  void (*hook)(Runner &, Event &) = nullptr; void *hookArg = nullptr;
  // hook: takes over the parser of an external general entity and returns what its handler returns
  int kids = 0; int (*childHook)(Runner &, XML_Parser, const Doc *) = nullptr;
  Runner(const Api &a, const Case &c) : A(a), C(c), handlers(c.handlers) {}
  XML_Parser make();
  void configure(XML_Parser p);
  void install(XML_Parser p, uint32_t mask, uint32_t which = ~0u);
  int feed(XML_Parser p, const Doc &d, bool part = false);      // parses d, logs, returns final status (0/1)
  Trace &run();                              // create + configure + feed + free
  void finish(XML_Parser p);
  Event &log(char k, std::string text, bool mergeable = false);
  void api(const char *what, long v);
};
Trace run_case(const Api &a, const Case &c);
// XML_Char string -> UTF-8 text for logs
std::string xs(const XML_Char *s, int n = -1);
std::string xe(const XML_Char *s, int n = -1); // escaped; "~" for NULL
std::basic_string<XML_Char> xc(const std::string &utf8);
XML_Parser make_parser(const Api &A, const Case &C, const std::string &enc);
int unknown_encoding(const std::string &name, XML_Encoding *info, UE *u);
std::string enc_decode_table(const std::string &name, std::vector<int> &map);
void run_child(Runner &r, XML_Parser c, const Doc *d, int depth);   // parses d with a parser taken over, and frees it
