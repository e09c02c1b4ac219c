// vrt.c: a replacement for the ThreadSanitizer runtime that a Go program built with -race calls into.
//
// The compiler and the runtime of Go report every memory access, every synchronisation operation and every goroutine
// start to the functions below. While an exploration is active, this runtime
//   - lets exactly one controlled goroutine run at a time and decides at every scheduling point which one goes on,
//     following a plan given by the driver and recording the choices there were, and
//   - keeps vector clocks and reports every pair of conflicting accesses that are not ordered by happens-before.
// It talks to the driver (drv.go) through a block of memory at a fixed address.
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <unistd.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <time.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t up;

#define MAXT 32      // controlled goroutines of one execution
#define MAXTR 200000 // recorded scheduling points
#define MAXPLAN 64
#define MAXRACE 16
#define MAXST 24

enum { S_NONE, S_START, S_READY, S_RUN, S_BLOCKED, S_ENDED };

typedef struct {
	u64 addr;
	u32 tid[2], kind[2];
	u64 pc[2];
	u32 nst[2];
	u64 st[2][MAXST];
} race_t;

typedef struct {
	u8 cur, chosen, curOn, kind;
	u32 enabled;
} point_t;

typedef struct {
	u32 idx, tid;
} dev_t_;

typedef struct {
	u64 magic;
	volatile u32 active;   // exploration is on
	volatile u32 spawn;    // goroutines started now by the driver are controlled
	volatile u32 fine;     // accesses to memory that existed before the execution are scheduling points too
	volatile u32 nthr;     // controlled goroutines so far
	volatile u32 cur;      // the goroutine that may run, MAXT for none
	volatile u32 ended;    // how many have ended
	volatile u32 points;   // scheduling points so far
	volatile u32 nplan;
	volatile u32 diverged; // planned choices that were not possible
	volatile u32 nrace;
	volatile u32 overflow; // tables were full
	volatile u64 progress; // counts hooks
	volatile u64 accesses, syncs, locs; // locs: writes to memory that existed before the execution
	volatile u32 blocks;   // times the watchdog found the running goroutine blocked
	volatile u32 expect;   // dispatch when that many have arrived
	volatile u32 reset;    // the next goroutine start resets everything
	volatile u32 gen;
	volatile u32 state[MAXT];
	dev_t_ plan[MAXPLAN];
	race_t race[MAXRACE];
	point_t tr[MAXTR];
} ctl_t;

#define CTL ((ctl_t *)0x5a0000000000ULL)

typedef struct thr {
	struct thr *next;
	int id; // -1: not controlled
	u32 gen;
	int ign;
	u32 vc[MAXT];
	u32 nst;
	u64 st[256];
} thr_t;

static volatile int biglock;
static void lock(void) { while (__sync_lock_test_and_set(&biglock, 1)) while (biglock) __builtin_ia32_pause(); }
static void unlock(void) { __sync_lock_release(&biglock); }

static thr_t *freethr;
static char *pool, *poolend;
static void *palloc(size_t n) {
	n = (n + 63) & ~(size_t)63;
	if (!pool || pool + n > poolend) {
		pool = mmap(0, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		poolend = pool + (64 << 20);
	}
	void *p = pool;
	pool += n;
	return p;
}
static thr_t *newthr(void) {
	thr_t *t = freethr;
	if (t) freethr = t->next;
	else t = palloc(sizeof *t);
	t->id = -1;
	t->ign = 0;
	t->nst = 0;
	memset(t->vc, 0, sizeof t->vc);
	return t;
}

/* ----- shadow state, valid for the generation of the current execution ----- */

typedef struct ent {
	struct ent *next;
	u8 mask, kind; // kind: 1 write, 2 atomic
	u8 tid;
	u32 clk;
	u64 pc;
	u32 nst;
	u64 *st;
} ent_t;

typedef struct {
	u64 key;
	u32 gen;
	u8 fresh; // allocated during this execution
	ent_t *e;
} cell_t;

#define NC (1u << 20)
static cell_t *cells;
static u32 gen = 1, ncell;
static ent_t *entbuf;
static u32 nent, capent = 1u << 21;
static u64 *stbuf;
static u32 nstb, capst = 1u << 23;

typedef struct {
	u64 key;
	u32 gen;
	u32 vc[MAXT];
} sync_t;
#define NS (1u << 14)
static sync_t *syncs_;
static u32 nsync;

static u64 hash(u64 x) { x *= 0x9E3779B97F4A7C15ULL; return x ^ (x >> 29); }

static cell_t *cell(u64 key, int make) {
	u32 i = (u32)((key & 255) | hash(key >> 8) << 8) & (NC - 1);
	for (;;) {
		cell_t *c = &cells[i];
		if (c->gen != gen) {
			if (!make) return 0;
			if (ncell > NC / 2) { CTL->overflow = 1; return 0; }
			ncell++;
			c->gen = gen;
			c->key = key;
			c->e = 0;
			c->fresh = 0;
			return c;
		}
		if (c->key == key) return c;
		i = (i + 1) & (NC - 1);
	}
}

static sync_t *syncof(u64 key, int make) {
	u32 i = hash(key) & (NS - 1);
	for (;;) {
		sync_t *c = &syncs_[i];
		if (c->gen != gen) {
			if (!make) return 0;
			if (nsync > NS / 2) { CTL->overflow = 1; return 0; }
			nsync++;
			c->gen = gen;
			c->key = key;
			memset(c->vc, 0, sizeof c->vc);
			return c;
		}
		if (c->key == key) return c;
		i = (i + 1) & (NS - 1);
	}
}

/* ----- scheduling ----- */

static void fwait(volatile u32 *p, u32 v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(volatile u32 *p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1 << 30, 0, 0, 0); }

static void setcur(u32 id) {
	CTL->cur = id;
	if (id < MAXT) CTL->state[id] = S_RUN;
	fwake(&CTL->cur);
}

static inline int controlled(thr_t *t) { return t && t->id >= 0 && CTL->active && t->gen == gen; }

static volatile u8 waiting[MAXT]; // in await
static volatile int tids[MAXT];   // the OS thread of the last hook
static __thread int mytid;
static void dispatch(void);

static inline void seen(u32 id) {
	if (!mytid) mytid = syscall(SYS_gettid);
	if (tids[id] != mytid) tids[id] = mytid;
}

// sleeping tells whether the OS thread sleeps, as it does soon after its goroutine was parked.
static int sleeping(int tid) {
	char b[300], *p = b;
	const char *pre = "/proc/self/task/";
	while (*pre) *p++ = *pre++;
	char d[12];
	int n = 0;
	do d[n++] = '0' + tid % 10; while (tid /= 10);
	while (n) *p++ = d[--n];
	memcpy(p, "/stat", 6);
	int fd = open(b, O_RDONLY);
	if (fd < 0) return 1;
	n = read(fd, b, sizeof b - 1);
	close(fd);
	if (n <= 0) return 1;
	b[n] = 0;
	p = strrchr(b, ')');
	return p && p[1] == ' ' && p[2] == 'S';
}

static void await(thr_t *t) {
	u32 id = t->id;
	waiting[id] = 1;
	for (;;) {
		u32 c = CTL->cur;
		if (c == id || !controlled(t)) break;
		if (CTL->state[id] == S_BLOCKED) {
			lock();
			if (CTL->state[id] == S_BLOCKED) {
				CTL->state[id] = S_READY;
				dispatch();
			}
			unlock();
			continue;
		}
		for (int i = 0; i < 200 && CTL->cur == c; i++) __builtin_ia32_pause();
		if (CTL->cur == c) fwait(&CTL->cur, c);
	}
	waiting[id] = 0;
	seen(id);
}

static u32 enabledMask(void) {
	u32 m = 0;
	for (u32 i = 0; i < CTL->nthr && i < MAXT; i++)
		if (CTL->state[i] == S_READY) m |= 1u << i;
	return m;
}

// choose records a scheduling point and returns who runs next; curOn: the current goroutine could go on.
static u32 choose(u32 cur, int curOn, int kind) {
	u32 m = enabledMask();
	if (curOn) m |= 1u << cur;
	if (!m) return MAXT;
	u32 pick = MAXT;
	u32 k = CTL->points;
	for (u32 i = 0; i < CTL->nplan; i++)
		if (CTL->plan[i].idx == k) {
			pick = CTL->plan[i].tid;
			if (!(m >> pick & 1)) { CTL->diverged++; pick = MAXT; }
		}
	if (pick == MAXT) {
		if (curOn) pick = cur;
		else pick = __builtin_ctz(m);
	}
	if (k < MAXTR) {
		point_t *p = &CTL->tr[k];
		p->cur = cur;
		p->chosen = pick;
		p->curOn = curOn;
		p->kind = kind;
		p->enabled = m;
	} else CTL->overflow = 1;
	CTL->points = k + 1;
	return pick;
}

static u64 now(void) {
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec * 1000000000ULL + ts.tv_nsec;
}

// arrivals gives goroutines that are starting or have just been unblocked a moment to reach their next hook.
static volatile int maywake; // something happened that may have unblocked a goroutine
static void arrivals(void) {
	u64 t0 = 0;
	int w = maywake;
	maywake = 0;
	for (;;) {
		int st = 0, bl = 0;
		for (u32 i = 0; i < CTL->nthr && i < MAXT; i++) {
			if (CTL->state[i] == S_START) st = 1;
			if (CTL->state[i] == S_BLOCKED) bl = w;
		}
		if (!st && !bl) return;
		u64 n = now();
		if (!t0) t0 = n;
		if (n - t0 > (st ? 1000000000ULL : 1500000ULL)) return;
		unlock();
		for (int i = 0; i < 100; i++) __builtin_ia32_pause();
		lock();
	}
}

// enter makes sure that only the goroutine whose turn it is goes on.

static void dispatch(void) {
	if (CTL->cur != MAXT || CTL->nthr < CTL->expect) return;
	for (u32 i = 0; i < CTL->nthr && i < MAXT; i++)
		if (CTL->state[i] == S_START) return;
	u32 n = choose(MAXT, 0, 4);
	if (n < MAXT) setcur(n);
}

static void enter(thr_t *t) {
	CTL->progress++;
	seen(t->id);
	if (CTL->cur == (u32)t->id) return;
	lock();
	if (CTL->cur != (u32)t->id) {
		CTL->state[t->id] = S_READY;
		dispatch();
	}
	unlock();
	await(t);
}

// The watchdog notices that the running goroutine is blocked outside of any hook.
static void *watchdog(void *x) {
	u64 last = 0, since = 0;
	for (;;) {
		struct timespec ts = {0, 100000};
		if (!CTL->active) ts.tv_nsec = 1000000;
		nanosleep(&ts, 0);
		if (!CTL->active) { since = 0; continue; }
		u64 n = now(), p = CTL->progress;
		if (p != last || !since) { last = p; since = n; continue; }
		if (n - since < 2000000ULL) continue;
		u32 c = CTL->cur;
		if (c < MAXT && n - since < 100000000ULL && !sleeping(tids[c])) continue;
		lock();
		if (CTL->cur != c) { unlock(); continue; }
		if (c >= MAXT && n - since < 1000000000ULL) { // somebody has yet to arrive
			int st = CTL->nthr < CTL->expect;
			for (u32 i = 0; i < CTL->nthr && i < MAXT; i++) st |= CTL->state[i] == S_START;
			if (st) { unlock(); continue; }
		}
		if (CTL->active && CTL->progress == last) {
			if (c < MAXT && CTL->state[c] == S_RUN && !waiting[c]) {
				CTL->state[c] = S_BLOCKED;
				CTL->blocks++;
				CTL->cur = MAXT;
			}
			if (CTL->cur == MAXT) {
				u32 k = choose(c, 0, 5);
				if (k < MAXT) setcur(k);
			}
		}
		unlock();
		since = 0;
	}
	return 0;
}

static void point(thr_t *t, int kind) {
	lock();
	arrivals();
	if (!enabledMask()) { unlock(); return; } // nobody else: no choice
	u32 n = choose(t->id, 1, kind);
	if (n != (u32)t->id) {
		CTL->state[t->id] = S_READY;
		setcur(n);
		unlock();
		await(t);
		return;
	}
	unlock();
}

/* ----- race detection ----- */

static void report(thr_t *t, u64 addr, u32 kind, u64 pc, ent_t *e) {
	u32 n = CTL->nrace;
	for (u32 i = 0; i < n; i++) {
		race_t *r = &CTL->race[i];
		if ((r->pc[0] == e->pc && r->pc[1] == pc) || (r->pc[0] == pc && r->pc[1] == e->pc)) return;
	}
	if (n >= MAXRACE) return;
	race_t *r = &CTL->race[n];
	r->addr = addr;
	r->tid[0] = e->tid;
	r->kind[0] = e->kind;
	r->pc[0] = e->pc;
	r->nst[0] = e->nst;
	memcpy(r->st[0], e->st, e->nst * 8);
	r->tid[1] = t->id;
	r->kind[1] = kind;
	r->pc[1] = pc;
	u32 d = t->nst < 256 ? t->nst : 256, k = d < MAXST ? d : MAXST;
	r->nst[1] = k;
	for (u32 i = 0; i < k; i++) r->st[1][i] = t->st[d - 1 - i];
	CTL->nrace = n + 1;
}

static void access1(thr_t *t, u64 g, u8 mask, u32 kind, u64 pc) {
	cell_t *c = cell(g, 1);
	if (!c) return;
	ent_t *mine = 0;
	for (ent_t *e = c->e; e; e = e->next) {
		if (e->tid == t->id) {
			if (e->mask == mask && e->kind == kind) mine = e;
			continue;
		}
		if (!(e->mask & mask)) continue;
		if (!((e->kind | kind) & 1)) continue;          // two reads
		if ((e->kind & 2) && (kind & 2)) continue;      // two atomics
		if (e->clk <= t->vc[e->tid]) continue;          // ordered
		report(t, g * 8 + __builtin_ctz(e->mask & mask), kind, pc, e);
	}
	if (!mine) {
		if (nent >= capent) { CTL->overflow = 1; return; }
		mine = &entbuf[nent++];
		mine->mask = mask;
		mine->kind = kind;
		mine->tid = t->id;
		mine->next = c->e;
		c->e = mine;
		mine->nst = 0;
		mine->st = 0;
	}
	mine->clk = t->vc[t->id];
	mine->pc = pc;
	if (!mine->st && nstb + MAXST <= capst) { mine->st = &stbuf[nstb]; }
	if (mine->st) {
		if (!mine->nst) {
			u32 d = t->nst < 256 ? t->nst : 256, k = d < MAXST ? d : MAXST;
			for (u32 i = 0; i < k; i++) mine->st[i] = t->st[d - 1 - i];
			mine->nst = k;
			nstb += k;
		}
	}
}

static void accessRange(thr_t *t, u64 a, u64 n, u32 kind, u64 pc) {
	if (!n) return;
	lock();
	CTL->accesses++;
	u64 g = a >> 3, end = (a + n - 1) >> 3;
	for (; g <= end; g++) {
		u32 lo = g == a >> 3 ? a & 7 : 0, hi = g == end ? (a + n - 1) & 7 : 7;
		access1(t, g, (u8)((0xFF << lo) & (0xFF >> (7 - hi))), kind, pc);
	}
	unlock();
}

static int isfresh(u64 a) {
	lock();
	cell_t *c = cell(a >> 3, 0);
	int r = c && c->fresh;
	unlock();
	return r;
}

static void acc(thr_t *t, up a, up n, u32 kind, up pc) {
	if (!controlled(t)) return;
	enter(t);
	int fr = isfresh(a);
	if (CTL->fine && !fr) point(t, 16 + (kind & 1));
	if ((kind & 1) && !fr) CTL->locs++;
	accessRange(t, a, n, kind, pc);
}

static void join(u32 *a, const u32 *b) {
	for (int i = 0; i < MAXT; i++)
		if (b[i] > a[i]) a[i] = b[i];
}

// sync kinds: 1 acquire, 2 release (overwrite), 4 release (merge)
static void syncop(thr_t *t, u64 a, int k) {
	lock();
	CTL->syncs++;
	if (k & 6) maywake = 1;
	sync_t *s = syncof(a, k != 1);
	if (s) {
		u32 old[MAXT];
		memcpy(old, s->vc, sizeof old);
		if (k & 2) memcpy(s->vc, t->vc, sizeof old);
		if (k & 4) join(s->vc, t->vc);
		if (k & 6) t->vc[t->id]++;
		if (k & 1) join(t->vc, old);
	}
	unlock();
}

/* ----- the interface the Go runtime expects ----- */

void __tsan_init(thr_t **thr, void **proc, void *cb) {
	void *p = mmap((void *)CTL, (sizeof(ctl_t) + 4095) & ~4095ULL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if (p != (void *)CTL) _exit(99);
	CTL->magic = 0x76727463;
	CTL->cur = MAXT;
	int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
	cells = mmap(0, NC * sizeof(cell_t), PROT_READ | PROT_WRITE, fl, -1, 0);
	entbuf = mmap(0, capent * sizeof(ent_t), PROT_READ | PROT_WRITE, fl, -1, 0);
	stbuf = mmap(0, capst * 8ULL, PROT_READ | PROT_WRITE, fl, -1, 0);
	syncs_ = mmap(0, NS * sizeof(sync_t), PROT_READ | PROT_WRITE, fl, -1, 0);
	sigset_t all, old;
	sigfillset(&all);
	pthread_sigmask(SIG_SETMASK, &all, &old);
	pthread_t th;
	pthread_create(&th, 0, watchdog, 0);
	pthread_sigmask(SIG_SETMASK, &old, 0);
	*thr = newthr();
	*proc = (void *)CTL;
}
void __tsan_fini(void) { exit(0); }
void __tsan_map_shadow(up a, up n) {}
void __tsan_proc_create(void **p) { *p = (void *)CTL; }
void __tsan_proc_destroy(void *p) {}
void __tsan_report_count(u64 *n) { *n = 0; }
void __tsan_finalizer_goroutine(thr_t *t) {}

void __tsan_go_start(thr_t *par, thr_t **out, void *pc) {
	lock();
	thr_t *t = newthr();
	*out = t;
	if (CTL->reset) {
		CTL->reset = 0;
		gen++;
		CTL->gen = gen;
		ncell = nent = nstb = nsync = 0;
		memset((void *)waiting, 0, sizeof waiting);
		fwake(&CTL->cur);
	}
	int ctl = CTL->active && (controlled(par) || CTL->spawn);
	if (ctl) {
		u32 id = CTL->nthr;
		if (id >= MAXT) CTL->overflow = 1;
		else {
			if (controlled(par)) {
				memcpy(t->vc, par->vc, sizeof t->vc);
				par->vc[par->id]++;
			}
			t->id = id;
			t->gen = gen;
			t->vc[id]++;
			CTL->state[id] = S_START;
			CTL->nthr = id + 1;
		}
	}
	unlock();
}
void __tsan_go_end(thr_t *t) {
	if (!t) return;
	if (controlled(t)) {
		enter(t);
		lock();
		CTL->state[t->id] = S_ENDED;
		CTL->ended++;
		maywake = 1;
		arrivals();
		u32 n = choose(t->id, 0, 1);
		setcur(n);
		unlock();
	}
	lock();
	t->id = -1;
	t->next = freethr;
	freethr = t;
	unlock();
}

void __tsan_malloc(thr_t *t, up pc, up p, up sz) {
	if (!CTL->active || !sz) return;
	lock();
	for (u64 g = p >> 3; g <= (p + sz - 1) >> 3; g++) {
		cell_t *c = cell(g, 1);
		if (!c) break;
		c->fresh = 1;
		if (p <= g * 8 && g * 8 + 8 <= p + sz) c->e = 0;
		else {
			u8 m = 0;
			for (int b = 0; b < 8; b++)
				if (g * 8 + b >= p && g * 8 + b < p + sz) m |= 1 << b;
			ent_t **q = &c->e;
			while (*q) {
				if (((*q)->mask &= ~m) == 0) *q = (*q)->next;
				else q = &(*q)->next;
			}
		}
	}
	unlock();
}
void __tsan_free(up p, up sz) {}

void __tsan_func_enter(thr_t *t, up pc) {
	if (!t) return;
	if (controlled(t) && CTL->state[t->id] == S_START) enter(t);
	if (t->nst < 256) t->st[t->nst] = pc;
	t->nst++;
}
void __tsan_func_exit(thr_t *t) {
	if (t && t->nst) t->nst--;
}

void __tsan_read(thr_t *t, up a, up pc) { acc(t, a, 1, 0, pc); }
void __tsan_write(thr_t *t, up a, up pc) { acc(t, a, 1, 1, pc); }
void __tsan_read_pc(thr_t *t, up a, up callpc, up pc) { acc(t, a, 1, 0, pc); }
void __tsan_write_pc(thr_t *t, up a, up callpc, up pc) { acc(t, a, 1, 1, pc); }
void __tsan_read_range(thr_t *t, up a, up n, up pc) { acc(t, a, n, 0, pc); }
void __tsan_write_range(thr_t *t, up a, up n, up pc) { acc(t, a, n, 1, pc); }

static void sy(thr_t *t, up a, int k) {
	if (!controlled(t)) return;
	enter(t);
	if (t->ign) return;
	point(t, 2);
	syncop(t, a, k);
}
void __tsan_acquire(thr_t *t, up a) { sy(t, a, 1); }
void __tsan_release(thr_t *t, up a) { sy(t, a, 2); }
void __tsan_release_merge(thr_t *t, up a) { sy(t, a, 4); }
void __tsan_release_acquire(thr_t *t, up a) { sy(t, a, 3); }
void __tsan_go_ignore_sync_begin(thr_t *t) { if (t) t->ign++; }
void __tsan_go_ignore_sync_end(thr_t *t) { if (t && t->ign) t->ign--; }

// before an atomic operation: scheduling point; after it: clocks and conflicts with plain accesses.
static void at0(thr_t *t) {
	if (!controlled(t)) return;
	enter(t);
	if (!t->ign) point(t, 3);
}
static void at1(thr_t *t, void *a, int size, u32 kind, int k, up pc) {
	if (!controlled(t) || t->ign) return;
	if ((kind & 1) && !isfresh((u64)a)) CTL->locs++;
	accessRange(t, (u64)a, size, kind | 2, pc);
	syncop(t, (u64)a, k);
}

#define ATOMICS(B, T) \
	void __tsan_go_atomic##B##_load(thr_t *t, up cpc, up pc, u8 *a) { \
		T *p = *(T **)a; at0(t); *(T *)(a + 8) = __atomic_load_n(p, __ATOMIC_SEQ_CST); at1(t, p, B / 8, 0, 1, pc); } \
	void __tsan_go_atomic##B##_store(thr_t *t, up cpc, up pc, u8 *a) { \
		T *p = *(T **)a; at0(t); at1(t, p, B / 8, 1, 2, pc); __atomic_store_n(p, *(T *)(a + 8), __ATOMIC_SEQ_CST); } \
	void __tsan_go_atomic##B##_exchange(thr_t *t, up cpc, up pc, u8 *a) { \
		T *p = *(T **)a; at0(t); at1(t, p, B / 8, 1, 3, pc); *(T *)(a + 16) = __atomic_exchange_n(p, *(T *)(a + 8), __ATOMIC_SEQ_CST); } \
	void __tsan_go_atomic##B##_fetch_add(thr_t *t, up cpc, up pc, u8 *a) { \
		T *p = *(T **)a; at0(t); at1(t, p, B / 8, 1, 3, pc); *(T *)(a + 16) = __atomic_fetch_add(p, *(T *)(a + 8), __ATOMIC_SEQ_CST); } \
	void __tsan_go_atomic##B##_fetch_and(thr_t *t, up cpc, up pc, u8 *a) { \
		T *p = *(T **)a; at0(t); at1(t, p, B / 8, 1, 3, pc); *(T *)(a + 16) = __atomic_fetch_and(p, *(T *)(a + 8), __ATOMIC_SEQ_CST); } \
	void __tsan_go_atomic##B##_fetch_or(thr_t *t, up cpc, up pc, u8 *a) { \
		T *p = *(T **)a; at0(t); at1(t, p, B / 8, 1, 3, pc); *(T *)(a + 16) = __atomic_fetch_or(p, *(T *)(a + 8), __ATOMIC_SEQ_CST); }
ATOMICS(32, u32)
ATOMICS(64, u64)

void __tsan_go_atomic32_compare_exchange(thr_t *t, up cpc, up pc, u8 *a) {
	u32 *p = *(u32 **)a, old = *(u32 *)(a + 8), nw = *(u32 *)(a + 12);
	at0(t);
	u32 got = old;
	int ok = __atomic_compare_exchange_n(p, &got, nw, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
	at1(t, p, 4, ok, ok ? 3 : 1, pc);
	*(u8 *)(a + 16) = ok;
}
void __tsan_go_atomic64_compare_exchange(thr_t *t, up cpc, up pc, u8 *a) {
	u64 *p = *(u64 **)a, old = *(u64 *)(a + 8), nw = *(u64 *)(a + 16);
	at0(t);
	u64 got = old;
	int ok = __atomic_compare_exchange_n(p, &got, nw, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
	at1(t, p, 8, ok, ok ? 3 : 1, pc);
	*(u8 *)(a + 24) = ok;
}


#ifdef OFFSETS
#include <stdio.h>
int main(void) {
#define O(f) printf("%s %zu\n", #f, offsetof(ctl_t, f));
	O(magic) O(active) O(spawn) O(fine) O(nthr) O(cur) O(ended) O(points) O(nplan) O(diverged) O(nrace) O(overflow) O(progress) O(accesses) O(syncs) O(locs) O(blocks) O(expect) O(reset) O(gen) O(state) O(plan) O(race) O(tr)
	printf("race_t %zu point_t %zu ctl %zu\n", sizeof(race_t), sizeof(point_t), sizeof(ctl_t));
}
#endif
