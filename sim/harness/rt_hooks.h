#ifndef VERIF_HARNESS_RT_HOOKS_H_
#define VERIF_HARNESS_RT_HOOKS_H_
#include <stddef.h>
#include <stdint.h>
namespace rt {
extern uint64_t steps, step_limit, countdown;
extern void (*on_step_limit)();
extern void (*on_countdown)();
extern uint8_t* edge_map;
extern uint32_t num_edges;
enum Op { kOpen, kRead, kWrite, kClose, kSeek, kRemove };
// Returns an errno to fail with, or 0; may lower *allow.
using IoFn = int (*)(Op op, int fd, size_t len, size_t* allow);
extern IoFn io_fn;
extern thread_local int io_mute;
extern size_t alloc_max, alloc_total;
extern bool alloc_track;
size_t CurrentAllocated();
extern void (*on_heap_limit)();
void InstallAllocHooks();
void SetErrorReportCallback(void (*cb)(const char*));
void SetDeathCallback(void (*cb)());
}  // namespace rt
#endif
