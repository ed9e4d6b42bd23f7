/* Steps of the instrumented code: every edge of the control flow (-sanitizer-coverage-trace-pc)
 * counts one, every 16 bytes copied, compared or filled count one. Not instrumented itself. */
#include <stddef.h>
#include <stdint.h>
uint64_t steps;
/* when the budget is used up the call is given up: the process ends */
uint64_t budget = ~0ull;
extern void over(void);
extern void _exit(int);
static inline void add(uint64_t n) { steps += n; if (__builtin_expect(steps > budget, 0)) { budget = ~0ull; over(); _exit(77); } }
void __sanitizer_cov_trace_pc(void) { add(1); }
#define W(r, f, args, pass, n) r __real_##f args; r __wrap_##f args { add(1 + (n) / 16); return __real_##f pass; }
W(void *, memcpy, (void *a, const void *b, size_t n), (a, b, n), n)
W(void *, memmove, (void *a, const void *b, size_t n), (a, b, n), n)
W(void *, memset, (void *a, int b, size_t n), (a, b, n), n)
W(int, memcmp, (const void *a, const void *b, size_t n), (a, b, n), n)
W(int, bcmp, (const void *a, const void *b, size_t n), (a, b, n), n)
W(void *, memchr, (const void *a, int b, size_t n), (a, b, n), n)
size_t __real_strlen(const char *s); size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); add(1 + n / 16); return n; }
