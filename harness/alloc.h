#pragma once
#include <cstddef>
struct AllocState {
  int in_lib = 0;            // >0 while the library under test is running on this thread
  long fail_at = -1;         // fail the n-th library allocation from now (0-based); -1: never
  long fail_persist = 0;     // keep failing afterwards
  long count = 0;            // library allocations so far
  long failed = 0;
  long live = 0;             // library blocks not yet freed
  long bytes = 0, peak = 0;
};
extern thread_local AllocState g_alloc;
struct InLib { int s; InLib() { s = g_alloc.in_lib; g_alloc.in_lib = 1; } ~InLib() { g_alloc.in_lib = s; } };
struct OutLib { int s; OutLib() { s = g_alloc.in_lib; g_alloc.in_lib = 0; } ~OutLib() { g_alloc.in_lib = s; } };
