#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#ifndef RT_BES
#define RT_BES 15
#endif

static FILE *lg;
static void die(const char *m) { fprintf(lg, "HARNESS %s\n", m); fflush(lg); _exit(90); }
static void hex(const void *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  const uint8_t *b = p;
  for (size_t i = 0; i < n; i++) { fputc(d[b[i] >> 4], lg); fputc(d[b[i] & 15], lg); }
  if (!n) fputc('-', lg);
}

/* ---- streams ---- */
typedef struct { uint8_t *p; size_t n, pos, cap; } S;
static S cin_, cout_, iin_, iout_;
static void sget(S *s, void *d, size_t n, const char *w) {
  if (n > s->n - s->pos) die(w);
  if (n) memcpy(d, s->p + s->pos, n);
  s->pos += n;
}
static void sput(S *s, const void *d, size_t n) {
  if (s->n + n > s->cap) { s->cap = (s->n + n) * 2 + 64; s->p = realloc(s->p, s->cap); }
  if (n) memcpy(s->p + s->n, d, n);
  s->n += n;
}
void rt_cin(void *d, size_t n) { sget(&cin_, d, n, "client-input-underrun"); }
void rt_iin(void *d, size_t n) { sget(&iin_, d, n, "plan-underrun"); }
void rt_cout(const void *d, size_t n) { sput(&cout_, d, n); }
void rt_iout(const void *d, size_t n) { sput(&iout_, d, n); }

static void *allocs[1 << 16]; static int nallocs;
void *rt_alloc(size_t n) {
  void *p = malloc(n);
  if (n) memset(p, 0xA5, n);
  if (nallocs >= (1 << 16)) die("too many allocs");
  allocs[nallocs++] = p;
  return p;
}
static void free_all(void) { for (int i = 0; i < nallocs; i++) free(allocs[i]); nallocs = 0; }

/* ---- counting objects ---- */
#define NOBJ 64
typedef struct { int id; int refs, min, ret, rel; int canary; } Cnt;
static Cnt cnt[NOBJ];
static int32_t cnt_invoke(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) {
  Cnt *c = h; (void)a;
  if (op == Object_OP_retain && k == 0) { c->refs++; c->ret++; return 0; }
  if (op == Object_OP_release && k == 0) { c->refs--; c->rel++; if (c->refs < c->min) c->min = c->refs; return 0; }
  fprintf(lg, "OBJCALL %d %x\n", c->id, op);
  return Object_ERROR_INVALID;
}
Object rt_obj(uint32_t id) {
  if (!id) return Object_NULL;
  if (id >= NOBJ) die("bad object id");
  return (Object){cnt_invoke, &cnt[id]};
}
Object rt_obj_ret(uint32_t id) { Object o = rt_obj(id); if (id) cnt[id].refs++; return o; }
uint32_t rt_obj_id(Object o) {
  if (o.invoke == NULL) return 0; /* any handle without invoke is null */
  uint8_t *p = (uint8_t *)o.context;
  if (o.invoke == cnt_invoke && p >= (uint8_t *)cnt && p < (uint8_t *)(cnt + NOBJ) && (p - (uint8_t *)cnt) % sizeof(Cnt) == 0)
    return (uint32_t)((Cnt *)p - cnt);
  return 0xFFFFFFFFu;
}
void rt_drop(Object o) {
  if (o.invoke == NULL) return;
  uint32_t id = rt_obj_id(o);
  if (id == 0xFFFFFFFFu) { fprintf(lg, "BADDROP\n"); return; }
  cnt[id].refs--; if (cnt[id].refs < cnt[id].min) cnt[id].min = cnt[id].refs;
}

static int32_t plan_status; static int fail_objs, depth;
static int entered;
int32_t rt_enter(const char *name, const void *self) { (void)self; entered++; fprintf(lg, "IMPL %s\n", name); return plan_status; }
void rt_leave(void) { fprintf(lg, "GOT "); hex(iout_.p, iout_.n); fputc('\n', lg); iout_.n = 0; }
static int stale;
int rt_fail_objs(void) { return fail_objs; }
uint32_t rt_stale(void) { return stale ? 60 : 0; }
void rt_client_status(int32_t r) { fprintf(lg, "STATUS %d\n", r); }
static int destroyed[4];
void rt_destroyed(int be) { destroyed[be]++; fprintf(lg, "DESTROYED %d\n", be); }
void rt_note(const char *w, uint32_t v) { fprintf(lg, "NOTE %s %u\n", w, v); }

/* ---- transport ---- */
typedef struct { Object target; int refs; int nul0, junk, direct; } Tr;
static void log_env(const char *tag, ObjectOp op, ObjectArg *a, ObjectCounts k) {
  fprintf(lg, "%s %x %x", tag, op, k);
  size_t i;
  FOR_ARGS(i, k, BI) { fprintf(lg, " I%zu:", a[i].bi.size); if (a[i].bi.size < (1u << 20)) hex(a[i].bi.ptr, a[i].bi.size); }
  FOR_ARGS(i, k, BO) { fprintf(lg, " O%zu", a[i].b.size); }
  FOR_ARGS(i, k, OI) { fprintf(lg, " i%u", rt_obj_id(a[i].o)); }
  FOR_ARGS(i, k, OO) { fprintf(lg, " o"); }
  fputc('\n', lg); fflush(lg);
}
static int32_t transport(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) {
  Tr *t = h;
  if (op == Object_OP_retain) { t->refs++; return 0; }
  if (op == Object_OP_release) { t->refs--; return 0; }
  log_env("INV", op, a, k);
  if (t->direct) return Object_invoke(t->target, op, a, k);
  size_t n = ObjectCounts_total(k), i;
  ObjectArg *b = n ? malloc(n * sizeof *b) : NULL;
  size_t *cap = calloc(n + 1, sizeof *cap);
  FOR_ARGS(i, k, BI) {
    size_t s = a[i].bi.size;
    if (s > (1u << 24)) { fprintf(lg, "HUGE\n"); free(b); free(cap); return Object_ERROR_MAXDATA; }
    void *p = (s || !t->nul0) ? malloc(s) : NULL;
    if (s) memcpy(p, a[i].bi.ptr, s);
    b[i].bi.ptr = p; b[i].bi.size = s;
  }
  FOR_ARGS(i, k, BO) {
    size_t s = a[i].b.size;
    if (s > (1u << 24)) { fprintf(lg, "HUGE\n"); free(b); free(cap); return Object_ERROR_MAXDATA; }
    void *p = (s || !t->nul0) ? malloc(s) : NULL;
    if (s) memset(p, 0x5C, s);
    b[i].b.ptr = p; b[i].b.size = s; cap[i] = s;
  }
  FOR_ARGS(i, k, OI) b[i].o = a[i].o;
  FOR_ARGS(i, k, OO) b[i].o = Object_NULL;
  int32_t r = Object_invoke(t->target, op, b, k);
  fprintf(lg, "RSP %d", r);
  if (r == 0) {
    FOR_ARGS(i, k, BO) {
      size_t s = b[i].b.size;
      fprintf(lg, " O%zu:", s);
      if (s > cap[i]) { fprintf(lg, "OVER"); s = cap[i]; } else hex(b[i].b.ptr, s);
      if (s) memcpy(a[i].b.ptr, b[i].b.ptr, s);
      a[i].b.size = s;
    }
    FOR_ARGS(i, k, OO) { fprintf(lg, " o%u", rt_obj_id(b[i].o)); a[i].o = b[i].o; }
  } else if (t->junk) {
    /* a failed call conveys nothing; slots may hold anything */
    FOR_ARGS(i, k, OO) a[i].o = rt_obj(NOBJ - 1);
  }
  fputc('\n', lg);
  FOR_ARGS(i, k, BI) free((void *)b[i].bi.ptr);
  for (i = ObjectCounts_indexBO(k); i < ObjectCounts_indexOI(k); i++) free(b[i].b.ptr);
  free(b); free(cap);
  return r;
}

/* ---- script ---- */
static uint8_t *sc; static size_t scn, scp;
static void rd(void *d, size_t n) { if (n > scn - scp) die("script"); memcpy(d, sc + scp, n); scp += n; }
static uint8_t r8(void) { uint8_t v; rd(&v, 1); return v; }
static uint16_t r16(void) { uint16_t v; rd(&v, 2); return v; }
static uint32_t r32(void) { uint32_t v; rd(&v, 4); return v; }
static void rblob(S *s) { uint32_t n = r32(); s->n = 0; s->pos = 0; if (n > scn - scp) die("script"); sput(s, sc + scp, n); scp += n; s->pos = 0; }

#define NIF 256
static Object made[4][NIF][2];
static Object get(int be, int iface, int var) {
  Object *o = &made[be][iface][var];
  if (Object_isNull(*o)) {
    const rt_make_fn (*mk)[2] = NULL;
#if RT_BES & 1
    if (be == 0) mk = rt_makers_c;
#endif
#if RT_BES & 2
    if (be == 1) mk = rt_makers_cu;
#endif
#if RT_BES & 4
    if (be == 2) mk = rt_makers_cpp;
#endif
#if RT_BES & 8
    if (be == 3) mk = rt_makers_rust;
#endif
    if (!mk) die("no backend");
    *o = mk[iface][var]();
  }
  return *o;
}
static rt_client_fn client(int be, int iface, int m) {
#if RT_BES & 1
  if (be == 0) return rt_clients_c[iface][m];
#endif
#if RT_BES & 2
  if (be == 1) return rt_clients_cu[iface][m];
#endif
#if RT_BES & 4
  if (be == 2) return rt_clients_cpp[iface][m];
#endif
#if RT_BES & 8
  if (be == 3) return rt_clients_rust[iface][m];
#endif
  die("no backend");
  return 0;
}
static void reset_cnt(void) { for (int i = 0; i < NOBJ; i++) cnt[i] = (Cnt){i, 1, 1, 0, 0, 0}; }
static void log_cnt(void) {
  for (int i = 1; i < NOBJ; i++)
    if (cnt[i].ret || cnt[i].rel || cnt[i].refs != 1 || cnt[i].min < 1)
      fprintf(lg, "REFS %d %d min %d ret %d rel %d\n", i, cnt[i].refs, cnt[i].min, cnt[i].ret, cnt[i].rel);
}
/* kinds: 1 call via stub; 2 raw envelope to a skeleton */
int main(int argc, char **argv) {
  if (argc < 3) return 91;
  FILE *f = fopen(argv[1], "rb");
  fseek(f, 0, SEEK_END); scn = ftell(f); fseek(f, 0, SEEK_SET);
  sc = malloc(scn); if (fread(sc, 1, scn, f) != scn) return 92; fclose(f);
  lg = fopen(argv[2], "w"); setvbuf(lg, NULL, _IOLBF, 1 << 16);
  reset_cnt();
  while (scp < scn) {
    int kind = r8();
    uint32_t id = r32();
    fprintf(lg, "CASE %u\n", id); fflush(lg);
    reset_cnt(); iout_.n = cout_.n = 0; entered = 0;
    if (kind == 1) {
      int sbe = r8(), kbe = r8(), var = r8(), flags = r8();
      int impl_if = r16(), stub_if = r16(), m = r16();
      plan_status = (int32_t)r32();
      rblob(&cin_); rblob(&iin_);
      Tr t = {get(kbe, impl_if, var), 1, flags & 1, (flags >> 1) & 1, (flags >> 2) & 1};
      fail_objs = (flags >> 3) & 1; stale = (flags >> 4) & 1;
      Object o = {transport, &t};
      rt_client_fn fn = client(sbe, stub_if, m);
      int32_t r = fn(o);
      fprintf(lg, "OUT %d ", r); hex(cout_.p, cout_.n); fputc('\n', lg);
      fprintf(lg, "TREFS %d CINLEFT %zu PLANLEFT %zu\n", t.refs, cin_.n - cin_.pos, iin_.n - iin_.pos);
    } else if (kind == 2) {
      int kbe = r8(), var = r8(), impl_if = r16();
      plan_status = (int32_t)r32(); fail_objs = 0;
      uint32_t op = r32(), k = r32();
      int flags = r8(); /* 1: null pointers for empty buffers */
      rblob(&iin_);
      Object o = get(kbe, impl_if, var);
      size_t n = ObjectCounts_total(k), i;
      ObjectArg *b = n ? malloc(n * sizeof *b) : NULL;
      size_t *cap = calloc(n + 1, sizeof *cap);
      FOR_ARGS(i, k, BI) {
        uint32_t s = r32(); int huge = r8();
        void *p = (s || !(flags & 1)) ? malloc(s) : NULL;
        if (s) rd(p, s);
        b[i].bi.ptr = p; b[i].bi.size = huge ? (huge == 1 ? (size_t)-1 : (size_t)s + ((size_t)1 << 32)) : s;
      }
      FOR_ARGS(i, k, BO) {
        uint32_t s = r32(); int huge = r8();
        void *p = (s || !(flags & 1)) ? malloc(s) : NULL;
        if (s) memset(p, 0x5C, s);
        b[i].b.ptr = p; cap[i] = s; b[i].b.size = huge ? (huge == 1 ? (size_t)-1 : (size_t)s + ((size_t)1 << 32)) : s;
      }
      FOR_ARGS(i, k, OI) b[i].o = rt_obj(r32());
      FOR_ARGS(i, k, OO) b[i].o = Object_NULL;
      int32_t r = Object_invoke(o, op, b, k);
      fprintf(lg, "RAW %d entered %d", r, entered);
      if (r == 0) {
        FOR_ARGS(i, k, BO) {
          size_t s = b[i].b.size; fprintf(lg, " O%zu:", s);
          if (s > cap[i]) fprintf(lg, "OVER"); else hex(b[i].b.ptr, s);
        }
        FOR_ARGS(i, k, OO) { fprintf(lg, " o%u", rt_obj_id(b[i].o)); rt_drop(b[i].o); }
      } else {
        /* refused/failed: output buffers must be untouched, no object handed out */
        int touched = 0;
        FOR_ARGS(i, k, BO) for (size_t j = 0; j < cap[i]; j++) if (((uint8_t *)b[i].b.ptr)[j] != 0x5C) touched = 1;
        int objs = 0;
        FOR_ARGS(i, k, OO) if (!Object_isNull(b[i].o)) objs = 1;
        fprintf(lg, " touched %d objs %d", touched, objs);
      }
      fputc('\n', lg);
      FOR_ARGS(i, k, BI) free((void *)b[i].bi.ptr);
      for (i = ObjectCounts_indexBO(k); i < ObjectCounts_indexOI(k); i++) free(b[i].b.ptr);
      free(b); free(cap);
    } else if (kind == 3) { /* drop all objects: each must be destroyed exactly once */
      for (int be = 0; be < 4; be++) {
        int n = 0; destroyed[be] = 0;
        for (int i = 0; i < NIF; i++) for (int v = 0; v < 2; v++)
          if (!Object_isNull(made[be][i][v])) { n++; Object_release(made[be][i][v]); made[be][i][v] = Object_NULL; }
        fprintf(lg, "DROPALL be %d made %d destroyed %d\n", be, n, destroyed[be]);
      }
    } else die("kind");
    log_cnt();
    fprintf(lg, "END\n");
    free_all();
    if (depth) die("depth");
  }
  fprintf(lg, "DONE\n"); fclose(lg);
  return 0;
}
