/* The Fortran entry points, called as a Fortran program calls them: every argument by reference,
 * in the order of the interface blocks (test_libgrpp_f90/libgrpp.f90). */
typedef int32_t fi;
#define SHELL double *, fi *, fi *, double *, double *
void libgrpp_set_default_parameters_(void); void libgrpp_set_radial_tolerance_(const double *); void libgrpp_set_angular_screening_tolerance_(const double *);
void libgrpp_set_modified_bessel_tolerance_(const double *); void libgrpp_set_cartesian_order_(const fi *); void libgrpp_init_(void); void libgrpp_finalize_(void);
void libgrpp_type1_integrals_(SHELL, SHELL, double *, fi *, fi *, double *, double *, double *);
void libgrpp_type2_integrals_(SHELL, SHELL, double *, fi *, fi *, fi *, double *, double *, double *);
void libgrpp_spin_orbit_integrals_(SHELL, SHELL, double *, fi *, fi *, fi *, double *, double *, double *, double *, double *);
void libgrpp_outercore_potential_integrals_part_1_(SHELL, SHELL, double *, fi *, fi *, fi *, fi *, double *, double *, fi *, double *, double *, double *, double *, double *, double *);
void libgrpp_outercore_potential_integrals_part_2_(SHELL, SHELL, double *, fi *, fi *, fi *, fi *, double *, double *, fi *, double *, double *,
        fi *, fi *, fi *, fi *, double *, double *, fi *, double *, double *, double *, double *, double *, double *);
void libgrpp_type1_integrals_gradient_(SHELL, SHELL, double *, fi *, fi *, double *, double *, double *, double *, double *, double *);
void libgrpp_type2_integrals_gradient_(SHELL, SHELL, double *, fi *, fi *, fi *, double *, double *, double *, double *, double *, double *);
void libgrpp_spin_orbit_integrals_gradient_(SHELL, SHELL, double *, fi *, fi *, fi *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *);
void evaluate_overlap_integral_contracted_(double *, fi *, fi *, fi *, fi *, double *, double *, double *, fi *, fi *, fi *, fi *, double *, double *, double *);
void radial_gto_norm_factor_(fi *, fi *, double *, double *, double *);
void libgrpp_overlap_integrals_(SHELL, SHELL, double *); void libgrpp_kinetic_energy_integrals_(SHELL, SHELL, double *);
void libgrpp_momentum_integrals_(SHELL, SHELL, double *, double *, double *);
void libgrpp_nuclear_attraction_integrals_(SHELL, SHELL, double *, fi *, fi *, double *, double *);
void libgrpp_nuclear_attraction_integrals_point_charge_(SHELL, SHELL, double *, fi *, double *);
void libgrpp_nuclear_attraction_integrals_charged_ball_(SHELL, SHELL, double *, fi *, double *, double *);
void libgrpp_nuclear_attraction_integrals_gaussian_model_(SHELL, SHELL, double *, fi *, double *, double *);
void libgrpp_nuclear_attraction_integrals_fermi_model_(SHELL, SHELL, double *, fi *, double *, double *, double *);
void libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(SHELL, SHELL, double *, fi *, double *, double *, double *, double *);
void libgrpp_estimate_nuclear_rms_radius_johnson_1985_(fi *, double *); void libgrpp_estimate_nuclear_rms_radius_golovko_2008_(fi *, double *);
void libgrpp_estimate_fermi_model_parameters_(double *, double *, double *, fi *);
void libgrpp_charge_density_ball_(double *, double *, double *, double *); void libgrpp_charge_density_gaussian_(double *, double *, double *, double *);
void libgrpp_charge_density_fermi_(double *, double *, double *, double *, double *); void libgrpp_charge_density_fermi_bubble_(double *, double *, double *, double *, double *, double *);
void libgrpp_coulomb_potential_point_(double *, double *, double *); void libgrpp_coulomb_potential_ball_(double *, double *, double *, double *);
void libgrpp_coulomb_potential_gaussian_(double *, double *, double *, double *); void libgrpp_coulomb_potential_fermi_(double *, double *, double *, double *, double *);
void libgrpp_coulomb_potential_fermi_bubble_(double *, double *, double *, double *, double *, double *);
void libgrpp_rms_radius_fermi_(fi *, double *, double *, double *); void libgrpp_rms_radius_fermi_bubble_(fi *, double *, double *, double *, double *);

/* all integer arguments of the current call: nothing may write to them */
static fi fint[512], shadow[512]; static int nfint;
static fi *F(int v) { fint[nfint] = shadow[nfint] = v; return &fint[nfint++]; }

/* a Fortran caller passes the shell's data only: the components are in the ordering selected now */
static int default_list(libgrpp_shell_t *s) {
    libgrpp_shell_t *t = libgrpp_new_shell(s->origin, s->L, s->num_primitives, s->coeffs, s->alpha);
    int same = t->cart_size == s->cart_size && !memcmp(t->cart_list, s->cart_list, 3 * t->cart_size * sizeof(int));
    libgrpp_delete_shell(t);
    return same;
}
static int has_fortran(call_t *c) {
    const char *s = c->op;
    if (!strcmp(s, "full") || !strcmp(s, "gfull") || !strcmp(s, "gov") || !strcmp(s, "goc")) return 0;
    if (!default_list(SH[c->a]) || !default_list(SH[c->b])) return 0;
    /* the interface has one angular momentum for an outercore potential and its shell, and the shell sits on the potential */
    for (int i = 0; i < c->noc; i++) if (PT[c->pid[i]]->L != SH[c->sid[i]]->L || !default_list(SH[c->sid[i]])) return 0;
    return 1;
}
#define FS(s) s->origin, F(s->L), F(s->num_primitives), s->coeffs, s->alpha
static fi *powers(libgrpp_potential_t *p) { fi *q = F(0); nfint--; for (int i = 0; i < p->num_primitives; i++) F(p->powers[i]); return q; }

static void invoke_fortran(call_t *c, double **o) {
    libgrpp_shell_t *A = SH[c->a], *B = SH[c->b];
    libgrpp_potential_t *p = c->p >= 0 ? PT[c->p] : NULL;
    const char *s = c->op;
    double C[3], P[3], par[8]; memcpy(C, c->C, sizeof C); memcpy(P, c->P, sizeof P); memcpy(par, c->par, sizeof par);
    nfint = 0;
    if (!strcmp(s, "ov")) libgrpp_overlap_integrals_(FS(A), FS(B), o[0]);
    else if (!strcmp(s, "kin")) libgrpp_kinetic_energy_integrals_(FS(A), FS(B), o[0]);
    else if (!strcmp(s, "mom")) libgrpp_momentum_integrals_(FS(A), FS(B), o[0], o[1], o[2]);
    else if (!strcmp(s, "t1")) libgrpp_type1_integrals_(FS(A), FS(B), C, F(p->num_primitives), powers(p), p->coeffs, p->alpha, o[0]);
    else if (!strcmp(s, "t2")) libgrpp_type2_integrals_(FS(A), FS(B), C, F(p->L), F(p->num_primitives), powers(p), p->coeffs, p->alpha, o[0]);
    else if (!strcmp(s, "so")) libgrpp_spin_orbit_integrals_(FS(A), FS(B), C, F(p->L), F(p->num_primitives), powers(p), p->coeffs, p->alpha, o[0], o[1], o[2]);
    else if (!strcmp(s, "gt1")) libgrpp_type1_integrals_gradient_(FS(A), FS(B), C, F(p->num_primitives), powers(p), p->coeffs, p->alpha, P, o[0], o[1], o[2]);
    else if (!strcmp(s, "gt2")) libgrpp_type2_integrals_gradient_(FS(A), FS(B), C, F(p->L), F(p->num_primitives), powers(p), p->coeffs, p->alpha, P, o[0], o[1], o[2]);
    else if (!strcmp(s, "gso")) libgrpp_spin_orbit_integrals_gradient_(FS(A), FS(B), C, F(p->L), F(p->num_primitives), powers(p), p->coeffs, p->alpha, P, o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8]);
    else if (!strcmp(s, "oc")) {
        /* the two parts add to their arguments */
        for (int q = 0; q < 4; q++) for (int k = 0; k < A->cart_size * B->cart_size; k++) o[q][k] = 0.0;
        for (int i = 0; i < c->noc; i++) {
            libgrpp_potential_t *u = PT[c->pid[i]]; libgrpp_shell_t *f = SH[c->sid[i]]; nfint = 0;
            libgrpp_outercore_potential_integrals_part_1_(FS(A), FS(B), C, F(u->L), F(u->J), F(u->num_primitives), powers(u), u->coeffs, u->alpha,
                F(f->num_primitives), f->coeffs, f->alpha, o[0], o[1], o[2], o[3]);
        }
        for (int i = 0; i < c->noc; i++) for (int j = 0; j < c->noc; j++) {
            libgrpp_potential_t *u = PT[c->pid[i]], *v = PT[c->pid[j]]; libgrpp_shell_t *f = SH[c->sid[i]], *g = SH[c->sid[j]]; nfint = 0;
            libgrpp_outercore_potential_integrals_part_2_(FS(A), FS(B), C, F(u->L), F(u->J), F(u->num_primitives), powers(u), u->coeffs, u->alpha,
                F(f->num_primitives), f->coeffs, f->alpha, F(v->L), F(v->J), F(v->num_primitives), powers(v), v->coeffs, v->alpha,
                F(g->num_primitives), g->coeffs, g->alpha, o[0], o[1], o[2], o[3]);
        }
    }
    else if (!strcmp(s, "nuc")) libgrpp_nuclear_attraction_integrals_(FS(A), FS(B), C, F(c->Z), F(c->model), par, o[0]);
    else if (!strcmp(s, "nucs")) {
        switch (c->model) {
            case LIBGRPP_NUCLEAR_MODEL_POINT_CHARGE: libgrpp_nuclear_attraction_integrals_point_charge_(FS(A), FS(B), C, F(c->Z), o[0]); break;
            case LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL: libgrpp_nuclear_attraction_integrals_charged_ball_(FS(A), FS(B), C, F(c->Z), par, o[0]); break;
            case LIBGRPP_NUCLEAR_MODEL_GAUSSIAN: libgrpp_nuclear_attraction_integrals_gaussian_model_(FS(A), FS(B), C, F(c->Z), par, o[0]); break;
            case LIBGRPP_NUCLEAR_MODEL_FERMI: libgrpp_nuclear_attraction_integrals_fermi_model_(FS(A), FS(B), C, F(c->Z), par, par + 1, o[0]); break;
            case LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE: libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(FS(A), FS(B), C, F(c->Z), par, par + 1, par + 2, o[0]); break;
            default: libgrpp_nuclear_attraction_integrals_(FS(A), FS(B), C, F(c->Z), F(c->model), par, o[0]);
        }
    }
    if (memcmp(C, c->C, sizeof C) || memcmp(P, c->P, sizeof P) || memcmp(par, c->par, sizeof par)) printf("E point-modified\n");
    if (memcmp(fint, shadow, sizeof fint)) printf("E point-modified (integers)\n");
}

/* through both interfaces: bit for bit the same (the outercore parts are summed by the caller) */
static void compare_fortran(call_t *c, out_t *o, int nm, int n) {
    if (!has_fortran(c)) { return; }
    out_t f[12]; double *ptr[12];
    for (int i = 0; i < nm; i++) { f[i] = mk_out(n, 3 - fill_mode); ptr[i] = f[i].m; }
    uint64_t h = hash_all(); long lb = live_blocks, bf = bad_free;
    invoke_fortran(c, ptr);
    printf("F %s\n", c->op);
    if (hash_all() != h) printf("E fortran args-modified %s\n", c->op);
    if (live_blocks != lb) printf("E fortran heap %ld %s\n", live_blocks - lb, c->op);
    if (bad_free != bf) printf("E fortran bad-free %s\n", c->op);
    double big = 0; int oc = !strcmp(c->op, "oc");
    for (int i = 0; i < nm; i++) for (int k = 0; k < n; k++) if (fabs(o[i].m[k]) > big) big = fabs(o[i].m[k]);
    for (int i = 0; i < nm; i++) {
        if (guard_bad(f[i])) printf("E fortran guard %s %d\n", c->op, i);
        for (int k = 0; k < n; k++)
            if (oc ? !(fabs(o[i].m[k] - f[i].m[k]) <= 1e-12 * (1 + big)) : memcmp(&o[i].m[k], &f[i].m[k], 8) != 0) {
                printf("E fortran differs: %s matrix %d element %d: C %.17g Fortran %.17g\n", c->op, i, k, o[i].m[k], f[i].m[k]); break; }
        __real_free(f[i].base);
    }
}

static double fortran_fun(const char *f, int n, double *x, double *extra) {
    /* x: real arguments in the order of the interface; n: integer argument */
    double v = NAN; fi k = n, rc = -99; double y[6]; memcpy(y, x, sizeof y);
    if (!strcmp(f, "rho_ball")) libgrpp_charge_density_ball_(x, x + 1, x + 2, &v);
    else if (!strcmp(f, "rho_gauss")) libgrpp_charge_density_gaussian_(x, x + 1, x + 2, &v);
    else if (!strcmp(f, "rho_fermi")) libgrpp_charge_density_fermi_(x, x + 1, x + 2, x + 3, &v);
    else if (!strcmp(f, "rho_bubble")) libgrpp_charge_density_fermi_bubble_(x, x + 1, x + 2, x + 3, x + 4, &v);
    else if (!strcmp(f, "v_point")) libgrpp_coulomb_potential_point_(x, x + 1, &v);
    else if (!strcmp(f, "v_ball")) libgrpp_coulomb_potential_ball_(x, x + 1, x + 2, &v);
    else if (!strcmp(f, "v_gauss")) libgrpp_coulomb_potential_gaussian_(x, x + 1, x + 2, &v);
    else if (!strcmp(f, "v_fermi")) libgrpp_coulomb_potential_fermi_(x, x + 1, x + 2, x + 3, &v);
    else if (!strcmp(f, "v_bubble")) libgrpp_coulomb_potential_fermi_bubble_(x, x + 1, x + 2, x + 3, x + 4, &v);
    else if (!strcmp(f, "rms_fermi")) libgrpp_rms_radius_fermi_(&k, x, x + 1, &v);
    else if (!strcmp(f, "rms_bubble")) libgrpp_rms_radius_fermi_bubble_(&k, x, x + 1, x + 2, &v);
    else if (!strcmp(f, "johnson")) libgrpp_estimate_nuclear_rms_radius_johnson_1985_(&k, &v);
    else if (!strcmp(f, "golovko")) libgrpp_estimate_nuclear_rms_radius_golovko_2008_(&k, &v);
    else if (!strcmp(f, "est_fermi")) { extra[0] = extra[1] = -1; libgrpp_estimate_fermi_model_parameters_(x, extra, extra + 1, &rc); v = rc; }
    if (memcmp(x, y, sizeof y) || k != n) printf("E fortran args-modified %s\n", f);
    return v;
}
