// The emulated device: runs a kernel's threads one after another in a random order (threads that
// meet at barriers as fibers), and watches every memory access the compiler reports
// (-fsanitize=thread instrumentation, with the functions it calls defined here).
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <ucontext.h>
#include <sys/mman.h>
#include <vector>
#include <algorithm>

struct uint3e { unsigned x, y, z; };
extern "C" {
struct { uint3e thread, block, dim, grid; } emu_idx_block;
struct Report { uint64_t reads, writes, atomics, barriers, threads, blocks, words_shared; char text[256]; };
}
struct Range { uintptr_t lo, hi; };
typedef void (*Entry)(void **);

namespace {
const Range *ranges; int n_ranges;
uintptr_t image_lo, image_hi, stack_lo, stack_hi;
bool active = false, aborted;
Report *rep;
jmp_buf out;
uint64_t rng;
unsigned cur_thread, cur_block, cur_epoch;

struct Who { uint32_t block, thread, epoch; };
struct Cell { uintptr_t word; uint32_t gen; uint8_t has_w, w_atomic, n_r; Who w, r[2]; bool r_atomic[2]; };
const size_t CELLS = 1 << 18;
Cell *cells; uint32_t gen = 0; size_t used;

uint64_t next() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

struct Fiber { ucontext_t ctx; bool done; };
const size_t STACK = 1 << 16;
Fiber fibers[1024]; char *stacks; ucontext_t scheduler; int cur_fiber = -1;
Entry entry; void **entry_args;

void stop() {
    aborted = true;
    if (cur_fiber >= 0) { active = false; setcontext(&scheduler); }
    active = false;
    longjmp(out, 1);
}

void fail(const char *what, uintptr_t a, int size) {
    active = false;
    // the allocation closest to the address
    long best = -1; int which = -1; long off = 0;
    for (int i = 0; i < n_ranges; i++) {
        long d = a < ranges[i].lo ? (long)(ranges[i].lo - a) : a >= ranges[i].hi ? (long)(a - ranges[i].hi + 1) : 0;
        if (best < 0 || d < best) { best = d; which = i; off = (long)(a - ranges[i].lo); }
    }
    snprintf(rep->text, sizeof rep->text, "%s of %d bytes at offset %ld of array %d (%ld bytes), block %u thread %u",
             what, size, off, which, which < 0 ? 0L : (long)(ranges[which].hi - ranges[which].lo), cur_block, cur_thread);
    stop();
}

// shared memory belongs to one block at a time
bool shared_memory;
bool ordered(const Who &w) { return shared_memory ? w.block != cur_block || w.thread == cur_thread || w.epoch < cur_epoch :
                                    w.block == cur_block && (w.thread == cur_thread || w.epoch < cur_epoch); }

void track(uintptr_t a, bool write, bool atomic) {
    uintptr_t word = a >> 2;
    shared_memory = a >= image_lo && a < image_hi;
    size_t h = (word * 0x9E3779B97F4A7C15ull) >> 46;
    Cell *c;
    for (;;) {
        c = &cells[h & (CELLS - 1)];
        if (c->gen != gen) {
            if (used > CELLS / 2) return;          // enough seen in this launch
            used++;
            memset(c, 0, sizeof *c); c->word = word; c->gen = gen;
            break;
        }
        if (c->word == word) break;
        h++;
    }
    Who me = {cur_block, cur_thread, cur_epoch};
    if (c->has_w && !ordered(c->w) && !(atomic && c->w_atomic))
        fail(write ? "race: write after an unordered write by another thread," : "race: read after an unordered write by another thread,", a, 4);
    if (write) {
        for (int i = 0; i < c->n_r; i++)
            if (!ordered(c->r[i]))
                fail("race: write after an unordered read by another thread,", a, 4);
        if (c->has_w && c->w.thread != cur_thread) rep->words_shared++;
        c->has_w = 1; c->w = me; c->w_atomic = atomic;
    } else {
        for (int i = 0; i < c->n_r; i++)
            if (c->r[i].block == cur_block && c->r[i].thread == cur_thread) { c->r[i] = me; return; }
        // keep one of the oldest block/thread and the newest
        if (c->n_r < 2) c->r[c->n_r++] = me; else c->r[next() & 1] = me;
    }
}

void access(uintptr_t a, int size, bool write, bool atomic = false) {
    if (!active) return;
    if (a >= stack_lo && a < stack_hi) return;
    if (a >= (uintptr_t)&emu_idx_block && a < (uintptr_t)(&emu_idx_block + 1)) return;
    if (write) rep->writes++; else rep->reads++;
    if (atomic) rep->atomics++;
    bool found = a >= image_lo && a + size <= image_hi;
    for (int i = 0; i < n_ranges && !found; i++)
        found = a >= ranges[i].lo && a + size <= ranges[i].hi;
    if (!found) fail(write ? "illegal write" : "illegal read", a, size);
    for (int k = 0; k < size; k += 4) track(a + k, write, atomic);
}

void fiber_main(unsigned lo, unsigned hi) {
    (void)lo; (void)hi;
    entry(entry_args);
    fibers[cur_fiber].done = true;
    setcontext(&scheduler);
}
}  // namespace

extern "C" {
#define RW(N) \
    void __tsan_read##N(void *a) { access((uintptr_t)a, N, false); } \
    void __tsan_write##N(void *a) { access((uintptr_t)a, N, true); } \
    void __tsan_unaligned_read##N(void *a) { access((uintptr_t)a, N, false); } \
    void __tsan_unaligned_write##N(void *a) { access((uintptr_t)a, N, true); } \
    void __tsan_volatile_read##N(void *a) { access((uintptr_t)a, N, false); } \
    void __tsan_volatile_write##N(void *a) { access((uintptr_t)a, N, true); } \
    void __tsan_read##N##_pc(void *a, void *) { access((uintptr_t)a, N, false); } \
    void __tsan_write##N##_pc(void *a, void *) { access((uintptr_t)a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, uint64_t n) { access((uintptr_t)a, (int)n, false); }
void __tsan_write_range(void *a, uint64_t n) { access((uintptr_t)a, (int)n, true); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}

float emu_atomic_add_f(float *p, float v) {
    access((uintptr_t)p, 4, true, true); float o = *p; *p = o + v; return o; }
int emu_atomic_add_i(int *p, int v) {
    access((uintptr_t)p, 4, true, true); int o = *p; *p = o + v; return o; }
float emu_atomic_exch_f(float *p, float v) {
    access((uintptr_t)p, 4, true, true); float o = *p; *p = v; return o; }
int emu_atomic_cas_i(int *p, int c, int v) {
    access((uintptr_t)p, 4, true, true); int o = *p; if (o == c) *p = v; return o; }
int emu_atomic_max_i(int *p, int v) {
    access((uintptr_t)p, 4, true, true); int o = *p; if (v > o) *p = v; return o; }

void emu_sync() {
    rep->barriers++;
    if (cur_fiber < 0) { active = false; snprintf(rep->text, sizeof rep->text, "barrier in a kernel run without one"); stop(); }
    int me = cur_fiber;
    swapcontext(&fibers[me].ctx, &scheduler);
}

// 0: finished, 1: stopped (report->text says why)
int emu_launch(Entry e, void **args, const uint64_t *grid, const uint64_t *block, const Range *rs, int n,
               uintptr_t ilo, uintptr_t ihi, int use_fibers, uint64_t seed, Report *report) {
    if (!cells) {
        cells = (Cell *)mmap(0, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        stacks = (char *)mmap(0, 1024 * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    gen++; used = 0; rng = seed * 2654435761u + 88172645463325252ull;
    for (int i = 0; i < 4; i++) next();
    ranges = rs; n_ranges = n; image_lo = ilo; image_hi = ihi; rep = report; aborted = false;
    entry = e; entry_args = args;
    char here;
    if (use_fibers) { stack_lo = (uintptr_t)stacks; stack_hi = stack_lo + 1024 * STACK; }
    else { stack_lo = (uintptr_t)&here - (1 << 20); stack_hi = (uintptr_t)&here + 4096; }
    emu_idx_block.grid = {(unsigned)grid[0], (unsigned)grid[1], (unsigned)grid[2]};
    emu_idx_block.dim = {(unsigned)block[0], (unsigned)block[1], (unsigned)block[2]};
    size_t nb = grid[0] * grid[1] * grid[2], nt = block[0] * block[1] * block[2];
    static std::vector<unsigned> bo, to;
    bo.resize(nb); to.resize(nt);
    for (size_t i = 0; i < nb; i++) bo[i] = i;
    for (size_t i = 0; i < nt; i++) to[i] = i;
    for (size_t i = nb; i > 1; i--) std::swap(bo[i - 1], bo[next() % i]);
    report->blocks = nb; report->threads = nb * nt;
    static size_t bi, ti, done;
    for (bi = 0; bi < nb; bi++) {
        cur_block = bo[bi]; cur_epoch = 0;
        emu_idx_block.block = {(unsigned)(cur_block % grid[0]), (unsigned)(cur_block / grid[0] % grid[1]), (unsigned)(cur_block / grid[0] / grid[1])};
        for (size_t i = nt; i > 1; i--) std::swap(to[i - 1], to[next() % i]);
        if (!use_fibers) {
            for (ti = 0; ti < nt; ti++) {
                cur_thread = to[ti];
                emu_idx_block.thread = {(unsigned)(cur_thread % block[0]), (unsigned)(cur_thread / block[0] % block[1]), (unsigned)(cur_thread / block[0] / block[1])};
                cur_fiber = -1;
                if (setjmp(out)) return 1;
                active = true;
                e(args);
                active = false;
            }
            continue;
        }
        for (size_t i = 0; i < nt; i++) {
            getcontext(&fibers[i].ctx);
            fibers[i].ctx.uc_stack.ss_sp = stacks + i * STACK;
            fibers[i].ctx.uc_stack.ss_size = STACK;
            fibers[i].ctx.uc_link = 0;
            fibers[i].done = false;
            makecontext(&fibers[i].ctx, (void (*)())fiber_main, 2, 0, 0);
        }
        for (done = 0; done < nt;) {
            size_t finished = 0;
            static size_t fin;
            fin = 0;
            for (ti = 0; ti < nt; ti++) {
                cur_thread = to[ti];
                if (fibers[cur_thread].done) { fin++; continue; }
                emu_idx_block.thread = {(unsigned)(cur_thread % block[0]), (unsigned)(cur_thread / block[0] % block[1]), (unsigned)(cur_thread / block[0] / block[1])};
                cur_fiber = cur_thread;
                active = true;
                swapcontext(&scheduler, &fibers[cur_thread].ctx);
                active = false; cur_fiber = -1;
                if (aborted) return 1;
                if (fibers[to[ti]].done) fin++;
            }
            finished = fin;
            if (finished != 0 && finished != nt) {
                snprintf(report->text, sizeof report->text, "barrier reached by only %zu of %zu threads of block %u", nt - finished, nt, cur_block);
                return 1;
            }
            done = finished;
            cur_epoch++;
            for (size_t i = nt; i > 1; i--) std::swap(to[i - 1], to[next() % i]);
        }
    }
    return 0;
}
}
