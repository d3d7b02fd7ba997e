/* Scheduling points of the simulator. The compiler calls these functions at every edge, load and
   store of the instrumented code; they do nothing unless the current thread is inside a library
   call that the simulator is watching. */
#include <stdint.h>
#include <stddef.h>

static __thread int32_t active __attribute__((tls_model("initial-exec")));
static __thread uint64_t opstep __attribute__((tls_model("initial-exec")));
static __thread uint64_t opnext __attribute__((tls_model("initial-exec")));

extern void sim_preempt(void);
uint8_t *sim_cov;        /* shared coverage map, SIM_COV bytes */
uint64_t *sim_total;     /* shared progress counter */
static uint8_t dummy_cov[1 << 20];
static uint64_t dummy_total;
uint32_t sim_nguards;

int32_t sim_get_active(void) { return active; }
int32_t sim_set_active(int32_t a) { int32_t o = active; active = a; return o; }
uint64_t sim_get_step(void) { return opstep; }
void sim_set_step(uint64_t s) { opstep = s; }
uint64_t sim_get_next(void) { return opnext; }
void sim_set_next(uint64_t s) { opnext = s; }
void sim_set_shared(uint8_t *cov, uint64_t *total) { sim_cov = cov; sim_total = total; }

static inline void point(void) {
    if (__builtin_expect(!active, 1)) return;
    (*sim_total)++;
    if (__builtin_expect(++opstep >= opnext, 0)) {
        active = 0;
        sim_preempt();
        active = 1;
    }
}

/* A scheduling point taken by a callback (the caller has switched `active` off). */
void sim_tick(void) {
    (*sim_total)++;
    if (++opstep >= opnext) sim_preempt();
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    static uint32_t n = 0;
    if (!sim_cov) { sim_cov = dummy_cov; sim_total = &dummy_total; }
    if (a == b || *a) return;
    for (uint32_t *p = a; p < b; p++) *p = ++n;
    sim_nguards = n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (__builtin_expect(!active, 1)) return;
    sim_cov[*g & ((1 << 20) - 1)] = 1;
    point();
}
#define P(n) void n(void *p) { (void)p; point(); }
P(__sanitizer_cov_load1) P(__sanitizer_cov_load2) P(__sanitizer_cov_load4) P(__sanitizer_cov_load8) P(__sanitizer_cov_load16)
P(__sanitizer_cov_store1) P(__sanitizer_cov_store2) P(__sanitizer_cov_store4) P(__sanitizer_cov_store8) P(__sanitizer_cov_store16)

const char *__asan_default_options(void) {
    return "detect_leaks=0:exitcode=77:symbolize=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=0:"
           "handle_abort=0:print_legend=0:print_summary=0:detect_odr_violation=0";
}
