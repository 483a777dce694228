#pragma once
#include "gen.h"
#include "run.h"
#include <functional>
#include <atomic>
struct Stats {               // lives in shared memory; all counters are added atomically
  std::atomic<long> evals, nontrivial, distinct, skipped, accepted, rejected, suspensions, runs, steps, extra[16];
  std::atomic<long> kinds[128];
  std::atomic<long> errs[64];
  static const unsigned HT = 1u << 21;
  std::atomic<uint64_t> ht[HT];
  void seen(uint64_t h) {    // distinct counter
    if (!h) h = 1; unsigned i = (unsigned)(h >> 20) & (HT - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (HT - 1)) {
      uint64_t c = ht[i].load(); if (c == h) return;
      if (c == 0) { if (ht[i].compare_exchange_strong(c, h)) { distinct++; return; } if (c == h) return; }
    }
  }
  void trace(const Trace &t, uint32_t flags) {
    runs++; for (auto &k : t.counts) kinds[(unsigned char)k.first] += k.second;
    if (t.status == 1) accepted++; else rejected++;
    if (t.err >= 0 && t.err < 64) errs[t.err]++;
    if (t.raw_events >= 3) { nontrivial++; seen(t.hash(flags)); }
  }
};
extern Stats *g_stats;
struct Sub {
  const char *name;
  std::function<void(Rng &, uint64_t idx, Case &)> gen;
  std::function<std::string(const Case &)> check;   // "" = held
  long total = 0;            // size of an enumerated space (0: sampled)
};
std::vector<Sub> &subs();
#define SUBS subs()
extern int g_tier;           // 0 quick, 1 thorough
std::string first_diff(const std::string &a, const std::string &b, const char *na, const char *nb);

void add(const char *n, std::function<void(Rng &, uint64_t, Case &)> g, std::function<std::string(const Case &)> c, long total = 0);
std::string check_diff(const Case &c);
void common_cfg(Rng &r, Case &c);
std::string invs(const Trace &t);
std::string judge_diff(const Case &c, Trace reference, Trace sut);
void linecol(const std::string &doc, long idx, unsigned long &line, unsigned long &col);
bool ref_brackets(Case &k);   // alters documents that meet the reference's defect with `]]]>` in ignored sections; false: there is none
bool ref_include(const Case &c, const Trace &reference);   // the reference's defect with parameter entities inside INCLUDE sections
