/*
 * Replay driver: executes behaviours of the specification (one command per line on stdin)
 * on the real libgrpp and reports, after every command, the projected state / outputs.
 *
 * Around every integral call it also records what a purity-minded observer can see:
 * guard zones around outputs, bytes of all live argument objects, live heap blocks.
 * Those observations are printed as event lines "E ..." and judged by the caller.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <assert.h>
#include "libgrpp.h"

#ifdef NOWRAP
/* under a sanitizer: its own allocator */
#define __real_malloc malloc
#define __real_calloc calloc
#define __real_free free
static long live_blocks = 0, bad_free = 0; static int track = 0;
#elif !defined(CONC)
/* ---------------------------------------------------------------- heap accounting */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static volatile long live_blocks = 0, n_alloc = 0, n_free = 0, bad_free = 0;
static int track = 0;
#define HASH (1 << 20)
static void **tab_ptr; static size_t *tab_size; static long tab_cnt = 0;
static long slot(void *p) { uint64_t h = ((uint64_t)(uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull; return (long)(h >> 44) & (HASH - 1); }
static void reg(void *p, size_t n) {
    if (!track || !p) return;
    long i = slot(p);
    while (tab_ptr[i] && tab_ptr[i] != (void *)1) i = (i + 1) & (HASH - 1);
    tab_ptr[i] = p; tab_size[i] = n; live_blocks++; n_alloc++;
}
static int unreg(void *p) {
    long i = slot(p);
    while (tab_ptr[i]) { if (tab_ptr[i] == p) { tab_ptr[i] = (void *)1; live_blocks--; n_free++; return 1; } i = (i + 1) & (HASH - 1); }
    return 0;
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p && track) memset(p, 0xCB, n); reg(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); reg(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (q && track) unreg(q); void *p = __real_realloc(q, n); reg(p, n); return p; }
void __wrap_free(void *p) {
    if (p && track) { if (!unreg(p)) { bad_free++; return; } }
    __real_free(p);
}

#endif
/* ---------------------------------------------------------------- objects */
#define NOBJ 4096
static libgrpp_shell_t *SH[NOBJ];
static libgrpp_potential_t *PT[NOBJ];
static libgrpp_grpp_t *GR[NOBJ];

static char *tok(void) { char *t = strtok(NULL, " \t\n"); if (!t) { printf("X missing token\n"); fflush(stdout); _Exit(3); } return t; }
static int ti(void) { return atoi(tok()); }
static double td(void) { return strtod(tok(), NULL); }

/* ---------------------------------------------------------------- snapshots of arguments */
#ifdef __clang__
__attribute__((no_sanitize("memory")))      /* padding bytes of the structures */
#endif
static uint64_t fnv(uint64_t h, const void *p, size_t n) { const unsigned char *c = p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
static uint64_t hash_shell(libgrpp_shell_t *s, uint64_t h) {
    h = fnv(h, s, sizeof *s);
    h = fnv(h, s->cart_list, 3 * s->cart_size * sizeof(int));
    h = fnv(h, s->coeffs, s->num_primitives * sizeof(double));
    return fnv(h, s->alpha, s->num_primitives * sizeof(double));
}
static uint64_t hash_pot(libgrpp_potential_t *p, uint64_t h) {
    h = fnv(h, p, sizeof *p);
    h = fnv(h, p->powers, p->num_primitives * sizeof(int));
    h = fnv(h, p->coeffs, p->num_primitives * sizeof(double));
    return fnv(h, p->alpha, p->num_primitives * sizeof(double));
}
static uint64_t hash_grpp(libgrpp_grpp_t *g, uint64_t h) {
    h = fnv(h, g, sizeof *g);
    if (g->U_L) h = hash_pot(g->U_L, h);
    for (int i = 0; i < g->n_arep; i++) h = hash_pot(g->U_arep[i], h);
    for (int i = 0; i < g->n_esop; i++) h = hash_pot(g->U_esop[i], h);
    for (int i = 0; i < g->n_oc_shells; i++) { h = hash_pot(g->U_oc[i], h); h = hash_shell(g->oc_shells[i], h); }
    return h;
}
static uint64_t hash_all(void) {
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < NOBJ; i++) {
        if (SH[i]) h = hash_shell(SH[i], h);
        if (PT[i]) h = hash_pot(PT[i], h);
        if (GR[i]) h = hash_grpp(GR[i], h);
    }
    return fnv(h, &libgrpp_params, sizeof libgrpp_params);
}

/* ---------------------------------------------------------------- outputs with guards */
#define GUARD 64
typedef struct { double *base; double *m; int n; } out_t;
static const uint64_t guard_pat = 0x7ff4dead0000beefull;
static double fill_value(int mode, int i) {
    union { double d; uint64_t u; } x;
    if (mode == 0) return 0.0;
    if (mode == 1) { x.u = 0x7ff8000000000000ull + 17; return x.d; }     /* NaN */
    return 1e3 + 7.25 * i;
}
static out_t mk_out(int n, int mode) {
    out_t o; o.n = n;
    o.base = __real_malloc((n + 2 * GUARD) * sizeof(double));
    for (int i = 0; i < n + 2 * GUARD; i++) memcpy(&o.base[i], &guard_pat, 8);
    o.m = o.base + GUARD;
    for (int i = 0; i < n; i++) o.m[i] = fill_value(mode, i);
    return o;
}
static int guard_bad(out_t o) {
    for (int i = 0; i < GUARD; i++)
        if (memcmp(&o.base[i], &guard_pat, 8) || memcmp(&o.base[GUARD + o.n + i], &guard_pat, 8)) return 1;
    return 0;
}

static int fill_mode = 1;
static int do_twice = 0;
static int quiet = 0;

typedef struct {
    char op[32];
    int a, b, p, g, noc, pid[128], sid[128], Z, model;
    double C[3], P[3], par[8];
} call_t;

void outer(call_t *c, double **o);

static int nmat(call_t *c) {
    const char *s = c->op;
    if (!strcmp(s, "ov") || !strcmp(s, "kin") || !strcmp(s, "t1") || !strcmp(s, "t2") || !strncmp(s, "nuc", 3)) return 1;
    if (!strcmp(s, "mom") || !strcmp(s, "so") || !strcmp(s, "gov") || !strcmp(s, "gt1") || !strcmp(s, "gt2")) return 3;
    if (!strcmp(s, "oc") || !strcmp(s, "full")) return 4;
    if (!strcmp(s, "gso")) return 9;
    if (!strcmp(s, "goc") || !strcmp(s, "gfull")) return 12;
    return -1;
}

static void invoke(call_t *c, double **o) {
    libgrpp_shell_t *A = SH[c->a], *B = SH[c->b];
    libgrpp_potential_t *p = c->p >= 0 ? PT[c->p] : NULL;
    libgrpp_potential_t *pots[128]; libgrpp_shell_t *shs[128];
    for (int i = 0; i < c->noc; i++) { pots[i] = PT[c->pid[i]]; shs[i] = SH[c->sid[i]]; }
    const char *s = c->op;
#ifdef CONC
    double *C = c->C, *P = c->P;      /* shared with the other threads */
#else
    double C[3], P[3]; memcpy(C, c->C, sizeof C); memcpy(P, c->P, sizeof P);
#endif
    if (!strcmp(s, "ov")) libgrpp_overlap_integrals(A, B, o[0]);
    else if (!strcmp(s, "kin")) libgrpp_kinetic_energy_integrals(A, B, o[0]);
    else if (!strcmp(s, "mom")) libgrpp_momentum_integrals(A, B, o[0], o[1], o[2]);
    else if (!strcmp(s, "t1")) libgrpp_type1_integrals(A, B, C, p, o[0]);
    else if (!strcmp(s, "t2")) libgrpp_type2_integrals(A, B, C, p, o[0]);
    else if (!strcmp(s, "so")) libgrpp_spin_orbit_integrals(A, B, C, p, o[0], o[1], o[2]);
    else if (!strcmp(s, "oc")) libgrpp_outercore_potential_integrals(A, B, C, c->noc, pots, shs, o[0], o[1], o[2], o[3]);
    else if (!strcmp(s, "full")) libgrpp_full_grpp_integrals(A, B, GR[c->g], C, o[0], o[1], o[2], o[3]);
    else if (!strcmp(s, "gov")) libgrpp_overlap_integrals_gradient(A, B, P, o);
    else if (!strcmp(s, "gt1")) libgrpp_type1_integrals_gradient(A, B, C, p, P, o);
    else if (!strcmp(s, "gt2")) libgrpp_type2_integrals_gradient(A, B, C, p, P, o);
    else if (!strcmp(s, "gso")) libgrpp_spin_orbit_integrals_gradient(A, B, C, p, P, o, o + 3, o + 6);
    else if (!strcmp(s, "goc")) libgrpp_outercore_potential_integrals_gradient(A, B, C, c->noc, pots, shs, P, o, o + 3, o + 6, o + 9);
    else if (!strcmp(s, "gfull")) libgrpp_full_grpp_integrals_gradient(A, B, GR[c->g], C, P, o, o + 3, o + 6, o + 9);
    else if (!strcmp(s, "nuc")) libgrpp_nuclear_attraction_integrals(A, B, C, c->Z, c->model, c->par, o[0]);
    else if (!strcmp(s, "nucs")) {
        switch (c->model) {
            case LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE: libgrpp_nuclear_attraction_integrals_point_charge(A, B, C, c->Z, o[0]); break;
            case LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL: libgrpp_nuclear_attraction_integrals_charged_ball(A, B, C, c->Z, c->par[0], o[0]); break;
            case LIBGRPP_NUCLEAR_MODEL_GAUSSIAN: libgrpp_nuclear_attraction_integrals_gaussian_model(A, B, C, c->Z, c->par[0], o[0]); break;
            case LIBGRPP_NUCLEAR_MODEL_FERMI: libgrpp_nuclear_attraction_integrals_fermi_model(A, B, C, c->Z, c->par[0], c->par[1], o[0]); break;
            case LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE: libgrpp_nuclear_attraction_integrals_fermi_bubble_model(A, B, C, c->Z, c->par[0], c->par[1], c->par[2], o[0]); break;
            default: libgrpp_nuclear_attraction_integrals(A, B, C, c->Z, c->model, c->par, o[0]);
        }
    }
#ifndef CONC
    if (memcmp(C, c->C, sizeof C) || memcmp(P, c->P, sizeof P)) printf("E point-modified\n");
#endif
}
static int both = 0, lang = 0;     /* each call through both interfaces; settings through the Fortran one */
#ifdef WITH_FORTRAN
#include "fortran_calls.h"
#endif

static void parse_call(call_t *c, const char *op) {
    memset(c, 0, sizeof *c); strcpy(c->op, op); c->p = c->g = -1;
    c->a = ti(); c->b = ti();
    int grad = op[0] == 'g';
    const char *s = grad ? op + 1 : op;
    if (!strcmp(s, "t1") || !strcmp(s, "t2") || !strcmp(s, "so")) { for (int i = 0; i < 3; i++) c->C[i] = td(); c->p = ti(); }
    else if (!strcmp(s, "oc")) { for (int i = 0; i < 3; i++) c->C[i] = td(); c->noc = ti(); for (int i = 0; i < c->noc; i++) { c->pid[i] = ti(); c->sid[i] = ti(); } }
    else if (!strcmp(s, "full")) { for (int i = 0; i < 3; i++) c->C[i] = td(); c->g = ti(); }
    else if (!strncmp(s, "nuc", 3)) { for (int i = 0; i < 3; i++) c->C[i] = td(); c->Z = ti(); c->model = ti(); for (int i = 0; i < 3; i++) c->par[i] = td(); }
    if (grad) for (int i = 0; i < 3; i++) c->P[i] = td();
}

static void run_call(call_t *c, void (*inv)(call_t *, double **)) {
    int nm = nmat(c);
    int n = SH[c->a]->cart_size * SH[c->b]->cart_size;
    out_t o[12], o2[12]; double *ptr[12];
    memset(o2, 0, sizeof o2);
    for (int i = 0; i < nm; i++) { o[i] = mk_out(n, fill_mode); ptr[i] = o[i].m; }
    uint64_t h = hash_all(); long lb = live_blocks, bf = bad_free;
    inv(c, ptr);
    if (hash_all() != h) printf("E args-modified %s\n", c->op);
    if (live_blocks != lb) printf("E heap %ld %s\n", live_blocks - lb, c->op);
    if (bad_free != bf) printf("E bad-free %s\n", c->op);
    for (int i = 0; i < nm; i++) if (guard_bad(o[i])) printf("E guard %s %d\n", c->op, i);
#ifdef WITH_FORTRAN
    if (both) compare_fortran(c, o, nm, n);
#endif
    if (do_twice) {
        for (int i = 0; i < nm; i++) { o2[i] = mk_out(n, 3 - fill_mode); ptr[i] = o2[i].m; }
        inv(c, ptr);
        for (int i = 0; i < nm; i++) for (int k = 0; k < n; k++)
            if (memcmp(&o[i].m[k], &o2[i].m[k], 8)) { printf("E not-overwritten %s mat %d elem %d: %a %a\n", c->op, i, k, o[i].m[k], o2[i].m[k]); break; }
    }
    printf("M %d %d", nm, n);
    if (quiet) {
        uint64_t hh = 1469598103934665603ull;
        for (int i = 0; i < nm; i++) hh = fnv(hh, o[i].m, n * sizeof(double));
        printf(" H%016llx", (unsigned long long)hh);
    } else
        for (int i = 0; i < nm; i++) for (int k = 0; k < n; k++) printf(" %a", o[i].m[k]);
    printf("\n");
    for (int i = 0; i < nm; i++) { __real_free(o[i].base); if (o2[i].base) __real_free(o2[i].base); }
}

#ifdef WITH_FORTRAN
static int fortran_setting(const char *op) {
    double t; fi k;
    if (!strcmp(op, "init")) { libgrpp_init_(); printf("R %d\n", libgrpp_is_initialized() != 0); return 1; }
    if (!strcmp(op, "finalize")) { libgrpp_finalize_(); printf("R %d\n", libgrpp_is_initialized() != 0); return 1; }
    if (!strcmp(op, "defaults")) { libgrpp_set_default_parameters_(); printf("R 0\n"); return 1; }
    if (!strcmp(op, "tolr")) { t = td(); libgrpp_set_radial_tolerance_(&t); printf("R 0\n"); return 1; }
    if (!strcmp(op, "tola")) { t = td(); libgrpp_set_angular_screening_tolerance_(&t); printf("R 0\n"); return 1; }
    if (!strcmp(op, "tolb")) { t = td(); libgrpp_set_modified_bessel_tolerance_(&t); printf("R 0\n"); return 1; }
    return 0;
}
#endif
static int rev_generator(int L, int *list) {   /* user supplied ordering: z-major ascending */
    int n = 0;
    for (int t = 0; t <= L; t++) for (int s = 0; s <= L - t; s++) { list[3 * n] = L - s - t; list[3 * n + 1] = s; list[3 * n + 2] = t; n++; }
    return n;
}

static void dump_shell(libgrpp_shell_t *s) {
    printf("S %d %d", s->L, s->cart_size);
    for (int i = 0; i < 3 * s->cart_size; i++) printf(" %d", s->cart_list[i]);
    printf(" %d", s->num_primitives);
    for (int i = 0; i < s->num_primitives; i++) printf(" %a %a", s->coeffs[i], s->alpha[i]);
    printf(" %a %a %a\n", s->origin[0], s->origin[1], s->origin[2]);
}
static void dump_pot(libgrpp_potential_t *p) {
    printf("P %d %d %d", p->L, p->J, p->num_primitives);
    for (int i = 0; i < p->num_primitives; i++) printf(" %d %a %a", p->powers[i], p->coeffs[i], p->alpha[i]);
    printf("\n");
}

#ifdef CONC
static int conc_cmd(const char *op);
static void read_symbols(const char *exe);
#endif
int main(int argc, char **argv) {
    static char line[1 << 20];
    static char obuf[1 << 20];
    setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
#ifdef NOWRAP
#elif !defined(CONC)
    tab_ptr = __real_calloc(HASH, sizeof *tab_ptr); tab_size = __real_calloc(HASH, sizeof *tab_size);
#else
    conc_init(); read_symbols(argv[0]);
#endif
    printf("ready\n.\n"); fflush(stdout);
    track = 1;
    while (fgets(line, sizeof line, stdin)) {
        char *op = strtok(line, " \t\n");
        if (!op || op[0] == '#') continue;
        call_t c;
#ifdef WITH_FORTRAN
        if (lang && fortran_setting(op)) ;
        else
#endif
        if (!strcmp(op, "init")) { libgrpp_init(); printf("R %d\n", libgrpp_is_initialized() != 0); }
        else if (!strcmp(op, "finalize")) { libgrpp_finalize(); printf("R %d\n", libgrpp_is_initialized() != 0); }
        else if (!strcmp(op, "isinit")) printf("R %d\n", libgrpp_is_initialized() != 0);
        else if (!strcmp(op, "order")) { int k = ti(); if (k == 2) libgrpp_set_cartesian_generator(rev_generator);
#ifdef WITH_FORTRAN
            else if (lang) { fi o = k ? LIBGRPP_CART_ORDER_TURBOMOLE : LIBGRPP_CART_ORDER_DIRAC; libgrpp_set_cartesian_order_(&o); }
#endif
            else libgrpp_set_cartesian_order(k ? LIBGRPP_CART_ORDER_TURBOMOLE : LIBGRPP_CART_ORDER_DIRAC); printf("R 0\n"); }
        else if (!strcmp(op, "defaults")) { libgrpp_set_default_parameters(); printf("R 0\n"); }
        else if (!strcmp(op, "tolr")) { libgrpp_set_radial_tolerance(td()); printf("R 0\n"); }
        else if (!strcmp(op, "tola")) { libgrpp_set_angular_screening_tolerance(td()); printf("R 0\n"); }
        else if (!strcmp(op, "tolb")) { libgrpp_set_modified_bessel_tolerance(td()); printf("R 0\n"); }
        else if (!strcmp(op, "params")) printf("V %a %a %a\n", libgrpp_params.radial_tolerance, libgrpp_params.angular_screening_tolerance, libgrpp_params.modified_bessel_tolerance);
        else if (!strcmp(op, "fill")) { fill_mode = ti(); printf("R 0\n"); }
        else if (!strcmp(op, "twice")) { do_twice = ti(); printf("R 0\n"); }
        else if (!strcmp(op, "quiet")) { quiet = ti(); printf("R 0\n"); }
        else if (!strcmp(op, "mem")) printf("R %ld %ld\n", live_blocks, bad_free);
        else if (!strcmp(op, "nsh")) {
            int id = ti(), L = ti(), n = ti(); double co[64], al[64], o[3];
            for (int i = 0; i < n; i++) { co[i] = td(); al[i] = td(); }
            for (int i = 0; i < 3; i++) o[i] = td();
            SH[id] = libgrpp_new_shell(o, L, n, co, al);
            /* the constructor must have copied its inputs */
            for (int i = 0; i < n; i++) co[i] = al[i] = -7e77; o[0] = o[1] = o[2] = -7e77;
            printf("R %d\n", libgrpp_get_shell_size(SH[id]));
        }
        else if (!strcmp(op, "setlist")) {  /* permute the component list of a shell by hand: rotate by k */
            int id = ti(), k = ti(); libgrpp_shell_t *s = SH[id]; int n = s->cart_size; int *t = __real_malloc(3 * n * sizeof(int));
            memcpy(t, s->cart_list, 3 * n * sizeof(int));
            for (int i = 0; i < n; i++) memcpy(s->cart_list + 3 * i, t + 3 * ((i + k) % n), 3 * sizeof(int));
            __real_free(t); printf("R 0\n");
        }
        else if (!strcmp(op, "cpsh")) { int id = ti(), src = ti(); SH[id] = libgrpp_shell_deep_copy(SH[src]); printf("R 0\n"); }
        else if (!strcmp(op, "shsh")) { libgrpp_shell_shrink(SH[ti()]); printf("R 0\n"); }
        else if (!strcmp(op, "mulsh")) { libgrpp_shell_mult_normcoef(SH[ti()]); printf("R 0\n"); }
        else if (!strcmp(op, "dsh")) { int id = ti(); libgrpp_delete_shell(SH[id]); SH[id] = NULL; printf("R 0\n"); }
        else if (!strcmp(op, "npt")) {
            int id = ti(), L = ti(), J = ti(), n = ti(); int pw[64]; double co[64], al[64];
            for (int i = 0; i < n; i++) { pw[i] = ti(); co[i] = td(); al[i] = td(); }
            PT[id] = libgrpp_new_potential(L, J, n, pw, co, al);
            for (int i = 0; i < n; i++) { pw[i] = -77; co[i] = al[i] = -7e77; }
            printf("R 0\n");
        }
        else if (!strcmp(op, "shpt")) { int id = ti(), src = ti(); PT[id] = libgrpp_shrink_potential(PT[src]); printf("R 0\n"); }
        else if (!strcmp(op, "dpt")) { int id = ti(); libgrpp_delete_potential(PT[id]); PT[id] = NULL; printf("R 0\n"); }
        else if (!strcmp(op, "pval")) { int id = ti(); double r = td(); printf("V %a\n", libgrpp_potential_value(PT[id], r)); }
        else if (!strcmp(op, "ngr")) { int id = ti(); GR[id] = libgrpp_new_grpp(); printf("R 0\n"); }
        /* ownership moves to the container: the driver forgets the part */
        else if (!strcmp(op, "gl")) { int g = ti(), p = ti(); libgrpp_grpp_set_local_potential(GR[g], PT[p]); PT[p] = NULL; printf("R 0\n"); }
        else if (!strcmp(op, "ga")) { int g = ti(), p = ti(); libgrpp_grpp_add_averaged_potential(GR[g], PT[p]); PT[p] = NULL; printf("R 0\n"); }
        else if (!strcmp(op, "gs")) { int g = ti(), p = ti(); libgrpp_grpp_add_spin_orbit_potential(GR[g], PT[p]); PT[p] = NULL; printf("R 0\n"); }
        else if (!strcmp(op, "go")) { int g = ti(), p = ti(), s = ti(); libgrpp_grpp_add_outercore_potential(GR[g], PT[p], SH[s]); PT[p] = NULL; SH[s] = NULL; printf("R 0\n"); }
        else if (!strcmp(op, "dgr")) { int id = ti(); libgrpp_delete_grpp(GR[id]); GR[id] = NULL; printf("R 0\n"); }
        else if (!strcmp(op, "dumps")) dump_shell(SH[ti()]);
        else if (!strcmp(op, "dumpp")) dump_pot(PT[ti()]);
        else if (!strcmp(op, "dumpg")) {
            libgrpp_grpp_t *g = GR[ti()];
            printf("G %d %d %d %d\n", g->U_L != NULL, g->n_arep, g->n_esop, g->n_oc_shells);
            if (g->U_L) dump_pot(g->U_L);
            for (int i = 0; i < g->n_arep; i++) dump_pot(g->U_arep[i]);
            for (int i = 0; i < g->n_esop; i++) dump_pot(g->U_esop[i]);
            for (int i = 0; i < g->n_oc_shells; i++) { dump_pot(g->U_oc[i]); dump_shell(g->oc_shells[i]); }
        }
        else if (!strcmp(op, "fun")) {
            char *f = tok(); double v = NAN;
            if (!strcmp(f, "rho_ball")) { double r = td(), Z = td(), R = td(); v = libgrpp_charge_density_ball(r, Z, R); }
            else if (!strcmp(f, "rho_gauss")) { double r = td(), Z = td(), R = td(); v = libgrpp_charge_density_gaussian(r, Z, R); }
            else if (!strcmp(f, "rho_fermi")) { double r = td(), Z = td(), cc = td(), a = td(); v = libgrpp_charge_density_fermi(r, Z, cc, a); }
            else if (!strcmp(f, "rho_bubble")) { double r = td(), Z = td(), cc = td(), a = td(), k = td(); v = libgrpp_charge_density_fermi_bubble(r, Z, cc, a, k); }
            else if (!strcmp(f, "v_point")) { double r = td(), Z = td(); v = libgrpp_coulomb_potential_point(r, Z); }
            else if (!strcmp(f, "v_ball")) { double r = td(), Z = td(), R = td(); v = libgrpp_coulomb_potential_ball(r, Z, R); }
            else if (!strcmp(f, "v_gauss")) { double r = td(), Z = td(), R = td(); v = libgrpp_coulomb_potential_gaussian(r, Z, R); }
            else if (!strcmp(f, "v_fermi")) { double r = td(), Z = td(), cc = td(), a = td(); v = libgrpp_coulomb_potential_fermi(r, Z, cc, a); }
            else if (!strcmp(f, "v_bubble")) { double r = td(), Z = td(), cc = td(), a = td(), k = td(); v = libgrpp_coulomb_potential_fermi_bubble(r, Z, cc, a, k); }
            else if (!strcmp(f, "rms_fermi")) { int Z = ti(); double cc = td(), a = td(); v = libgrpp_rms_radius_fermi(Z, cc, a); }
            else if (!strcmp(f, "rms_bubble")) { int Z = ti(); double cc = td(), a = td(), k = td(); v = libgrpp_rms_radius_fermi_bubble(Z, cc, a, k); }
            else if (!strcmp(f, "johnson")) v = libgrpp_estimate_nuclear_rms_radius_johnson_1985(ti());
            else if (!strcmp(f, "golovko")) v = libgrpp_estimate_nuclear_rms_radius_golovko_2008(ti());
            else if (!strcmp(f, "est_fermi")) { double R = td(), cc = -1, a = -1; int rc = libgrpp_estimate_fermi_model_parameters(R, &cc, &a); printf("V %d %a %a\n.\n", rc, cc, a); fflush(stdout); continue; }
            else { printf("X unknown function\n.\n"); fflush(stdout); continue; }
            printf("V %a\n", v);
        }
#ifdef WITH_FORTRAN
        else if (!strcmp(op, "f")) {   /* the same call through the Fortran entry points */
            char o2[32]; strcpy(o2, tok()); parse_call(&c, o2);
            if (!has_fortran(&c)) printf("X no fortran entry\n"); else run_call(&c, invoke_fortran);
        }
        else if (!strcmp(op, "ffun")) {
            char *f = tok(); double x[6] = {0}, extra[2]; int n = ti(), nx = ti(); for (int i = 0; i < nx; i++) x[i] = td();
            double v = fortran_fun(f, n, x, extra);
            if (!strcmp(f, "est_fermi")) printf("V %d %a %a\n", (int) v, extra[0], extra[1]); else printf("V %a\n", v);
        }
        else if (!strcmp(op, "fnorm")) { double v = NAN; libgrpp_shell_t *s = SH[ti()]; nfint = 0; radial_gto_norm_factor_(F(s->L), F(s->num_primitives), s->coeffs, s->alpha, &v); printf("V %a\n", v); }
        else if (!strcmp(op, "fovc")) {
            libgrpp_shell_t *a = SH[ti()], *b = SH[ti()]; int i = ti(), j = ti(); double v = NAN; nfint = 0; uint64_t h = hash_all(); long lb = live_blocks;
            evaluate_overlap_integral_contracted_(a->origin, F(a->cart_list[3 * i]), F(a->cart_list[3 * i + 1]), F(a->cart_list[3 * i + 2]), F(a->num_primitives), a->coeffs, a->alpha,
                b->origin, F(b->cart_list[3 * j]), F(b->cart_list[3 * j + 1]), F(b->cart_list[3 * j + 2]), F(b->num_primitives), b->coeffs, b->alpha, &v);
            if (hash_all() != h || memcmp(fint, shadow, sizeof fint)) printf("E fortran args-modified ovc\n");
            if (live_blocks != lb) printf("E fortran heap ovc\n");
            printf("V %a\n", v);
        }
#endif
        else if (!strcmp(op, "both")) { both = ti(); printf("R 0\n"); }
        else if (!strcmp(op, "lang")) { lang = ti(); printf("R 0\n"); }
        else if (!strcmp(op, "quit")) break;
#ifdef CONC
        else if (conc_cmd(op)) ;
#endif
        else {
            strncpy(c.op, op, 31);
            if (nmat(&c) < 0) { printf("X unknown op %s\n.\n", op); fflush(stdout); continue; }
            char o2[32]; strcpy(o2, op); parse_call(&c, o2); run_call(&c, invoke);
        }
        printf(".\n");
        fflush(stdout);
    }
    return 0;
}
