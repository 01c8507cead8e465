/* Implementation of the HPIPM functions acados expects but the HPIPM library of
 * the casadi wheel does not have.  Written against HPIPM's public structs only.
 * Sensitivities are computed with a dense KKT solve: slow, obviously correct. */
#ifndef VERIF_HPIPM_COMPAT_IMPL
#define VERIF_HPIPM_COMPAT_IMPL
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <pthread.h>
#include "hpipm_compat.h"
#include "blasfeo_d_aux.h"
#include "blasfeo_d_blas.h"

/* ---------------- side tables ---------------- */
typedef struct { void *key; double t0_min, lam0_min; double *lam, *t; int nlam; } entry;
#define TBL 8192
static entry tbl[TBL];
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static entry *lookup(void *key)
{
    pthread_mutex_lock(&mtx);
    size_t h = (((size_t) key) >> 3) % TBL;
    entry *e = NULL;
    for (int k = 0; k < TBL; k++, h = (h+1)%TBL)
    {
        if (tbl[h].key == key) { e = &tbl[h]; break; }
        if (!tbl[h].key) { tbl[h].key = key; e = &tbl[h]; break; }
    }
    pthread_mutex_unlock(&mtx);
    if (!e) { memset(tbl, 0, sizeof(tbl)); return lookup(key); }
    return e;
}

/* ---------------- args ---------------- */
static int own_field(const char *f)
{
    return !strcmp(f, "t0_init") || !strcmp(f, "update_fact_exit") || !strcmp(f, "t0_min") || !strcmp(f, "lam0_min");
}
static void own_set(const char *f, void *value, void *arg)
{
    entry *e = lookup(arg);
    if (!strcmp(f, "t0_min")) e->t0_min = *(double *) value;
    if (!strcmp(f, "lam0_min")) e->lam0_min = *(double *) value;
}
void vc_ocp_qp_ipm_arg_set(char *f, void *value, struct d_ocp_qp_ipm_arg *arg)
{
    if (own_field(f)) own_set(f, value, arg);
    else if (!strcmp(f, "iter_max") && *(int *) value > arg->stat_max) { int v = *(int*)value; d_ocp_qp_ipm_arg_set_iter_max(&v, arg); }
    else d_ocp_qp_ipm_arg_set(f, value, arg);
}
void vc_dense_qp_ipm_arg_set(char *f, void *value, struct d_dense_qp_ipm_arg *arg)
{
    if (own_field(f)) own_set(f, value, arg);
    else d_dense_qp_ipm_arg_set(f, value, arg);
}
void vc_ocp_qp_ipm_arg_set_default(enum hpipm_mode mode, struct d_ocp_qp_ipm_arg *arg)
{
    d_ocp_qp_ipm_arg_set_default(mode, arg);
    entry *e = lookup(arg); e->t0_min = 1e-16; e->lam0_min = 1e-16;
}
void vc_dense_qp_ipm_arg_set_default(enum hpipm_mode mode, struct d_dense_qp_ipm_arg *arg)
{
    d_dense_qp_ipm_arg_set_default(mode, arg);
    entry *e = lookup(arg); e->t0_min = 1e-16; e->lam0_min = 1e-16;
}
void d_ocp_qp_ipm_arg_get(char *f, struct d_ocp_qp_ipm_arg *arg, void *value)
{
    entry *e = lookup(arg);
    if (!strcmp(f, "t0_min")) *(double *) value = e->t0_min;
    else if (!strcmp(f, "lam0_min")) *(double *) value = e->lam0_min;
    else if (!strcmp(f, "iter_max")) *(int *) value = arg->iter_max;
    else if (!strcmp(f, "tau_min")) *(double *) value = arg->tau_min;
    else { printf("compat: d_ocp_qp_ipm_arg_get: unknown field %s\n", f); exit(1); }
}
void d_dense_qp_ipm_arg_get(char *f, struct d_dense_qp_ipm_arg *arg, void *value)
{
    entry *e = lookup(arg);
    if (!strcmp(f, "t0_min")) *(double *) value = e->t0_min;
    else if (!strcmp(f, "lam0_min")) *(double *) value = e->lam0_min;
    else if (!strcmp(f, "iter_max")) *(int *) value = arg->iter_max;
    else if (!strcmp(f, "tau_min")) *(double *) value = arg->tau_min;
    else { printf("compat: d_dense_qp_ipm_arg_get: unknown field %s\n", f); exit(1); }
}
void d_ocp_qp_ipm_get_tau_iter(struct d_ocp_qp_ipm_ws *ws, double *value) { *value = ws->core_workspace->mu; }

void d_ocp_qp_set_m_all(double *value, struct d_ocp_qp *qp)
{
    struct d_ocp_qp_dim *d = qp->dim;
    for (int k = 0; k <= d->N; k++) blasfeo_dvecse(2*d->nb[k]+2*d->ng[k]+2*d->ns[k], *value, qp->m+k, 0);
}
void d_dense_qp_set_m_all(double *value, struct d_dense_qp *qp)
{
    struct d_dense_qp_dim *d = qp->dim;
    blasfeo_dvecse(2*d->nb+2*d->ng+2*d->ns, *value, qp->m, 0);
}
void d_ocp_qp_get_idxe(int stage, struct d_ocp_qp *qp, int *vec)
{
    struct d_ocp_qp_dim *d = qp->dim;
    int n = d->nbue[stage] + d->nbxe[stage] + d->nge[stage];
    for (int i = 0; i < n; i++) vec[i] = qp->idxe[stage][i];
}
void d_dense_qp_dim_get_nv(struct d_dense_qp_dim *dim, int *value) { *value = dim->nv; }

void vc_reduce_set_alias_unchanged(int *value, struct d_ocp_qp_reduce_eq_dof_arg *arg) { d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged(arg, *value); }
void vc_reduce_set_comp_dual_sol_eq(int *value, struct d_ocp_qp_reduce_eq_dof_arg *arg) { d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq(arg, *value); }
void vc_reduce_set_comp_dual_sol_ineq(int *value, struct d_ocp_qp_reduce_eq_dof_arg *arg) { d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq(arg, *value); }

void vc_part_cond_qp_expand_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *psol, struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    struct d_ocp_qp pqp; memset(&pqp, 0, sizeof(pqp)); pqp.dim = psol->dim;
    d_part_cond_qp_expand_sol(qp, &pqp, psol, sol, arg, ws);
}

/* ---------------- seeds ---------------- */
#define NCI(d,k) (2*(d)->nb[k]+2*(d)->ng[k]+2*(d)->ns[k])
#define NVK(d,k) ((d)->nu[k]+(d)->nx[k]+2*(d)->ns[k])
static size_t al(size_t s) { return (s+63)/64*64; }

hpipm_size_t d_ocp_qp_seed_memsize(struct d_ocp_qp_dim *d)
{
    size_t s = 64 + al(4*(d->N+1)*sizeof(struct blasfeo_dvec));
    for (int k = 0; k <= d->N; k++)
        s += al(blasfeo_memsize_dvec(NVK(d,k))) + 2*al(blasfeo_memsize_dvec(NCI(d,k))) + (k < d->N ? al(blasfeo_memsize_dvec(d->nx[k+1])) : 0);
    return s;
}
void d_ocp_qp_seed_create(struct d_ocp_qp_dim *d, struct d_ocp_qp_seed *seed, void *mem)
{
    memset(mem, 0, d_ocp_qp_seed_memsize(d));
    seed->dim = d;
    seed->memsize = d_ocp_qp_seed_memsize(d);
    struct blasfeo_dvec *p = (struct blasfeo_dvec *) ((((size_t) mem)+7)/8*8);
    seed->seed_g = p; p += d->N+1; seed->seed_b = p; p += d->N+1; seed->seed_d = p; p += d->N+1; seed->seed_m = p; p += d->N+1;
    char *c = (char *) al((size_t) p);
    for (int k = 0; k <= d->N; k++)
    {
        blasfeo_create_dvec(NVK(d,k), seed->seed_g+k, c); c += al(blasfeo_memsize_dvec(NVK(d,k)));
        blasfeo_create_dvec(NCI(d,k), seed->seed_d+k, c); c += al(blasfeo_memsize_dvec(NCI(d,k)));
        blasfeo_create_dvec(NCI(d,k), seed->seed_m+k, c); c += al(blasfeo_memsize_dvec(NCI(d,k)));
        if (k < d->N) { blasfeo_create_dvec(d->nx[k+1], seed->seed_b+k, c); c += al(blasfeo_memsize_dvec(d->nx[k+1])); }
    }
}
void d_ocp_qp_seed_set_zero(struct d_ocp_qp_seed *s)
{
    struct d_ocp_qp_dim *d = s->dim;
    for (int k = 0; k <= d->N; k++)
    {
        blasfeo_dvecse(NVK(d,k), 0.0, s->seed_g+k, 0);
        blasfeo_dvecse(NCI(d,k), 0.0, s->seed_d+k, 0);
        blasfeo_dvecse(NCI(d,k), 0.0, s->seed_m+k, 0);
        if (k < d->N) blasfeo_dvecse(d->nx[k+1], 0.0, s->seed_b+k, 0);
    }
}
void d_ocp_qp_seed_print(struct d_ocp_qp_dim *dim, struct d_ocp_qp_seed *seed) { (void) dim; (void) seed; }

hpipm_size_t d_dense_qp_seed_memsize(struct d_dense_qp_dim *d)
{
    int nc = 2*(d->nb+d->ng+d->ns);
    return 128 + al(4*sizeof(struct blasfeo_dvec)) + al(blasfeo_memsize_dvec(d->nv+2*d->ns)) + al(blasfeo_memsize_dvec(d->ne)) + 2*al(blasfeo_memsize_dvec(nc));
}
void d_dense_qp_seed_create(struct d_dense_qp_dim *d, struct d_dense_qp_seed *seed, void *mem)
{
    memset(mem, 0, d_dense_qp_seed_memsize(d));
    int nc = 2*(d->nb+d->ng+d->ns);
    seed->dim = d; seed->memsize = d_dense_qp_seed_memsize(d);
    struct blasfeo_dvec *p = (struct blasfeo_dvec *) ((((size_t) mem)+7)/8*8);
    seed->seed_g = p; seed->seed_b = p+1; seed->seed_d = p+2; seed->seed_m = p+3;
    char *c = (char *) al((size_t) (p+4));
    blasfeo_create_dvec(d->nv+2*d->ns, seed->seed_g, c); c += al(blasfeo_memsize_dvec(d->nv+2*d->ns));
    blasfeo_create_dvec(d->ne, seed->seed_b, c); c += al(blasfeo_memsize_dvec(d->ne));
    blasfeo_create_dvec(nc, seed->seed_d, c); c += al(blasfeo_memsize_dvec(nc));
    blasfeo_create_dvec(nc, seed->seed_m, c);
}
void d_dense_qp_seed_set_zero(struct d_dense_qp_seed *s)
{
    struct d_dense_qp_dim *d = s->dim; int nc = 2*(d->nb+d->ng+d->ns);
    blasfeo_dvecse(d->nv+2*d->ns, 0.0, s->seed_g, 0); blasfeo_dvecse(d->ne, 0.0, s->seed_b, 0);
    blasfeo_dvecse(nc, 0.0, s->seed_d, 0); blasfeo_dvecse(nc, 0.0, s->seed_m, 0);
}
void d_dense_qp_seed_print(struct d_dense_qp_dim *dim, struct d_dense_qp_seed *seed) { (void) dim; (void) seed; }

/* ---------------- temporary objects ---------------- */
static void *amalloc(size_t n) { void *p = NULL; if (posix_memalign(&p, 64, n+64)) abort(); memset(p, 0, n+64); return p; }

static struct d_ocp_qp *new_ocp_qp(struct d_ocp_qp_dim *d)
{
    size_t h = al(sizeof(struct d_ocp_qp));
    char *m = amalloc(h + d_ocp_qp_memsize(d));
    struct d_ocp_qp *qp = (struct d_ocp_qp *) m;
    d_ocp_qp_create(d, qp, m+h);
    return qp;
}
static struct d_ocp_qp_sol *new_ocp_sol(struct d_ocp_qp_dim *d)
{
    size_t h = al(sizeof(struct d_ocp_qp_sol));
    char *m = amalloc(h + d_ocp_qp_sol_memsize(d));
    struct d_ocp_qp_sol *s = (struct d_ocp_qp_sol *) m;
    d_ocp_qp_sol_create(d, s, m+h);
    return s;
}
/* copy of qp whose right-hand side is replaced by a seed (seed NULL: rhs zero) */
static struct d_ocp_qp *qp_with_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *s)
{
    struct d_ocp_qp_dim *d = qp->dim;
    struct d_ocp_qp *o = new_ocp_qp(d);
    for (int k = 0; k <= d->N; k++)
    {
        int nu = d->nu[k], nx = d->nx[k], nb = d->nb[k], ng = d->ng[k], ns = d->ns[k];
        if (k < d->N)
        {
            int nx1 = d->nx[k+1];
            blasfeo_dgecp(nu+nx+1, nx1, qp->BAbt+k, 0, 0, o->BAbt+k, 0, 0);
            blasfeo_dvecse(nx1, 0.0, o->b+k, 0);
            if (s) blasfeo_dveccp(nx1, s->seed_b+k, 0, o->b+k, 0);
            blasfeo_drowin(nx1, 1.0, o->b+k, 0, o->BAbt+k, nu+nx, 0);
        }
        blasfeo_dgecp(nu+nx+1, nu+nx, qp->RSQrq+k, 0, 0, o->RSQrq+k, 0, 0);
        blasfeo_dvecse(nu+nx+2*ns, 0.0, o->rqz+k, 0);
        blasfeo_dvecse(NCI(d,k), 0.0, o->d+k, 0);
        blasfeo_dvecse(NCI(d,k), 0.0, o->m+k, 0);
        if (s)
        {
            blasfeo_dveccp(nu+nx+2*ns, s->seed_g+k, 0, o->rqz+k, 0);
            blasfeo_dveccp(NCI(d,k), s->seed_d+k, 0, o->d+k, 0);
            blasfeo_dveccp(NCI(d,k), s->seed_m+k, 0, o->m+k, 0);
        }
        blasfeo_drowin(nu+nx, 1.0, o->rqz+k, 0, o->RSQrq+k, nu+nx, 0);
        blasfeo_dgecp(nu+nx, ng, qp->DCt+k, 0, 0, o->DCt+k, 0, 0);
        blasfeo_dveccp(NCI(d,k), qp->d_mask+k, 0, o->d_mask+k, 0);
        blasfeo_dveccp(2*ns, qp->Z+k, 0, o->Z+k, 0);
        memcpy(o->idxb[k], qp->idxb[k], nb*sizeof(int));
        memcpy(o->idxs_rev[k], qp->idxs_rev[k], (nb+ng)*sizeof(int));
        memcpy(o->idxe[k], qp->idxe[k], (d->nbue[k]+d->nbxe[k]+d->nge[k])*sizeof(int));
        o->diag_H_flag[k] = qp->diag_H_flag[k];
    }
    return o;
}
static void rhs_to_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *s)
{
    struct d_ocp_qp_dim *d = qp->dim;
    for (int k = 0; k <= d->N; k++)
    {
        blasfeo_dveccp(NVK(d,k), qp->rqz+k, 0, s->seed_g+k, 0);
        blasfeo_dveccp(NCI(d,k), qp->d+k, 0, s->seed_d+k, 0);
        blasfeo_dveccp(NCI(d,k), qp->m+k, 0, s->seed_m+k, 0);
        if (k < d->N) blasfeo_dveccp(d->nx[k+1], qp->b+k, 0, s->seed_b+k, 0);
    }
}

/* ---------------- dense KKT ---------------- */
static int lu_solve(int n, double *A, double *b)
{
    for (int k = 0; k < n; k++)
    {
        int p = k; double mx = fabs(A[k*n+k]);
        for (int i = k+1; i < n; i++) if (fabs(A[i*n+k]) > mx) { mx = fabs(A[i*n+k]); p = i; }
        if (mx == 0.0 || mx != mx) return 1;
        if (p != k)
        {
            for (int j = 0; j < n; j++) { double t = A[k*n+j]; A[k*n+j] = A[p*n+j]; A[p*n+j] = t; }
            double t = b[k]; b[k] = b[p]; b[p] = t;
        }
        for (int i = k+1; i < n; i++)
        {
            double f = A[i*n+k]/A[k*n+k];
            if (f == 0.0) continue;
            for (int j = k+1; j < n; j++) A[i*n+j] -= f*A[k*n+j];
            b[i] -= f*b[k];
        }
    }
    for (int i = n-1; i >= 0; i--)
    {
        double s = b[i];
        for (int j = i+1; j < n; j++) s -= A[i*n+j]*b[j];
        b[i] = s/A[i*n+i];
    }
    return 0;
}
#define E(v,i) BLASFEO_DVECEL(v,i)
#define M(m,i,j) BLASFEO_DMATEL(m,i,j)

/* one stage of the inequality part; v at offset ov (u,x / v, then sl, su), rows of
 * lambda at offset ol; C row i of the two-sided constraint via callback */
typedef struct { int nb, ng, ns; int nv; int *idxb; int *idxs_rev; struct blasfeo_dmat *DCt; struct blasfeo_dvec *mask; } cset;
static void ineq_rows(cset c, int n, double *K, double *rhs, int ov, int ol,
                      const double *lam, const double *t, struct blasfeo_dvec *sd, struct blasfeo_dvec *sm)
{
    int nbg = c.nb+c.ng, nc = 2*nbg+2*c.ns;
    for (int i = 0; i < nc; i++)
    {
        int row = ol+i;
        if (c.mask && E(c.mask, i) == 0.0) { K[row*n+row] = 1.0; rhs[row] = 0.0; continue; }
        /* residual r = seed_d + t - sgn*(C v) - slack ; for upper sgn=-1 */
        if (i < 2*nbg)
        {
            int up = i >= nbg, j = up ? i-nbg : i; double sgn = up ? -1.0 : 1.0;
            for (int q = 0; q < c.nv; q++)
            {
                double cv = 0.0;
                if (j < c.nb) cv = (c.idxb[j] == q) ? 1.0 : 0.0; else cv = M(c.DCt, q, j-c.nb);
                if (cv == 0.0) continue;
                K[(ov+q)*n+row] += -sgn*cv;              /* stationarity: - sgn*C' lam */
                K[row*n+ov+q] += lam[i]*sgn*cv;          /* lam*dt, dt = sgn*C dv + ds - seed_d */
            }
            int is = c.idxs_rev ? c.idxs_rev[j] : -1;
            if (c.ns > 0 && is >= 0 && is < c.ns)
            {
                int q = c.nv + (up ? c.ns : 0) + is;
                K[(ov+q)*n+row] += -1.0;
                K[row*n+ov+q] += lam[i];
            }
        }
        else
        {
            int q = c.nv + (i-2*nbg);
            K[(ov+q)*n+row] += -1.0;
            K[row*n+ov+q] += lam[i];
        }
        K[row*n+row] += t[i];
        rhs[row] = -E(sm, i) + lam[i]*E(sd, i);
    }
}
static void compute_dt(cset c, int ov, const double *x, struct blasfeo_dvec *sd, struct blasfeo_dvec *tout)
{
    int nbg = c.nb+c.ng;
    for (int i = 0; i < 2*nbg+2*c.ns; i++)
    {
        double v = -E(sd, i);
        if (i < 2*nbg)
        {
            int up = i >= nbg, j = up ? i-nbg : i; double sgn = up ? -1.0 : 1.0;
            if (j < c.nb) v += sgn*x[ov+c.idxb[j]];
            else for (int q = 0; q < c.nv; q++) v += sgn*M(c.DCt, q, j-c.nb)*x[ov+q];
            int is = c.idxs_rev ? c.idxs_rev[j] : -1;
            if (c.ns > 0 && is >= 0 && is < c.ns) v += x[ov+c.nv+(up?c.ns:0)+is];
        }
        else v += x[ov+c.nv+(i-2*nbg)];
        E(tout, i) = v;
    }
}

/* bytes held by the side tables (the leak check of C27 does not count them) */
size_t vc_table_bytes(void)
{
    size_t n = 0;
    for (int i = 0; i < TBL; i++) if (tbl[i].lam) n += 2*(tbl[i].nlam+1)*sizeof(double);
    return n;
}

static void save_lam_t(void *ws, int n, double *lam, double *t)
{
    entry *e = lookup(ws);
    e->lam = realloc(e->lam, (n+1)*sizeof(double)); e->t = realloc(e->t, (n+1)*sizeof(double)); e->nlam = n;
    memcpy(e->lam, lam, n*sizeof(double)); memcpy(e->t, t, n*sizeof(double));
}

void vc_ocp_qp_ipm_solve(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{
    struct d_ocp_qp_dim *d = qp->dim;
    entry *ea = lookup(arg);
    if (arg->warm_start == 3 && arg->iter_max == 0)
    {
        for (int k = 0; k <= d->N; k++)
            for (int i = 0; i < NCI(d,k); i++)
            {
                if (E(sol->lam+k, i) < ea->lam0_min) E(sol->lam+k, i) = ea->lam0_min;
                if (E(sol->t+k, i) < ea->t0_min) E(sol->t+k, i) = ea->t0_min;
            }
        ws->status = MAX_ITER; ws->iter = 0;
    }
    else
    {
        int ws_bkp = arg->warm_start;
        if (ws_bkp > 2) arg->warm_start = 2;
        d_ocp_qp_ipm_solve(qp, sol, arg, ws);
        arg->warm_start = ws_bkp;
    }
    int n = 0; for (int k = 0; k <= d->N; k++) n += NCI(d,k);
    double *l = malloc((n+1)*sizeof(double)), *t = malloc((n+1)*sizeof(double)); n = 0;
    for (int k = 0; k <= d->N; k++) for (int i = 0; i < NCI(d,k); i++) { l[n] = E(sol->lam+k, i); t[n] = E(sol->t+k, i); n++; }
    save_lam_t(ws, n, l, t); free(l); free(t);
}
void vc_dense_qp_ipm_solve(struct d_dense_qp *qp, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{
    struct d_dense_qp_dim *d = qp->dim;
    int nc = 2*(d->nb+d->ng+d->ns);
    entry *ea = lookup(arg);
    if (arg->warm_start == 3 && arg->iter_max == 0)
    {
        for (int i = 0; i < nc; i++)
        {
            if (E(sol->lam, i) < ea->lam0_min) E(sol->lam, i) = ea->lam0_min;
            if (E(sol->t, i) < ea->t0_min) E(sol->t, i) = ea->t0_min;
        }
        ws->status = MAX_ITER; ws->iter = 0;
    }
    else
    {
        int ws_bkp = arg->warm_start;
        if (ws_bkp > 2) arg->warm_start = 2;
        d_dense_qp_ipm_solve(qp, sol, arg, ws);
        arg->warm_start = ws_bkp;
    }
    double *l = malloc((nc+1)*sizeof(double)), *t = malloc((nc+1)*sizeof(double));
    for (int i = 0; i < nc; i++) { l[i] = E(sol->lam, i); t[i] = E(sol->t, i); }
    save_lam_t(ws, nc, l, t); free(l); free(t);
}

static void no_solution(void *ws, int nc)
{
    double *l = calloc(nc+1, sizeof(double)), *t = malloc((nc+1)*sizeof(double));
    for (int i = 0; i <= nc; i++) t[i] = 1.0;
    save_lam_t(ws, nc, l, t); free(l); free(t);
}

void d_ocp_qp_ipm_sens_frw(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{
    (void) arg;
    struct d_ocp_qp_dim *d = qp->dim; int N = d->N;
    int nv = 0, ne = 0, nc = 0;
    for (int k = 0; k <= N; k++) { nv += NVK(d,k); nc += NCI(d,k); if (k < N) ne += d->nx[k+1]; }
    int n = nv+ne+nc;
    entry *e = lookup(ws);
    if (!e->lam || e->nlam != nc) no_solution(ws, nc);  /* never solved: zero multipliers */
    double *K = calloc((size_t) n*n+1, sizeof(double)), *x = calloc(n+1, sizeof(double));
    int ov = 0, oe = nv, ol = nv+ne, oc = 0;
    for (int k = 0; k <= N; k++)
    {
        int nu = d->nu[k], nx = d->nx[k], nux = nu+nx, ns = d->ns[k];
        for (int i = 0; i < nux; i++)
            for (int j = 0; j < nux; j++) K[(ov+i)*n+ov+j] += (i >= j) ? M(qp->RSQrq+k, i, j) : M(qp->RSQrq+k, j, i);
        for (int i = 0; i < 2*ns; i++) K[(ov+nux+i)*n+ov+nux+i] += E(qp->Z+k, i);
        for (int i = 0; i < nux+2*ns; i++) x[ov+i] = -E(seed->seed_g+k, i);
        if (k < N)
        {
            int nx1 = d->nx[k+1], ovn = ov+nux+2*ns+d->nu[k+1];
            for (int j = 0; j < nx1; j++)
            {
                for (int i = 0; i < nux; i++) { double a = M(qp->BAbt+k, i, j); K[(ov+i)*n+oe+j] += a; K[(oe+j)*n+ov+i] += a; }
                K[(ovn+j)*n+oe+j] -= 1.0; K[(oe+j)*n+ovn+j] -= 1.0;
                x[oe+j] = -E(seed->seed_b+k, j);
            }
            oe += nx1;
        }
        cset c = { d->nb[k], d->ng[k], ns, nux, qp->idxb[k], qp->idxs_rev[k], qp->DCt+k, qp->d_mask+k };
        ineq_rows(c, n, K, x, ov, ol+oc, e->lam+oc, e->t+oc, seed->seed_d+k, seed->seed_m+k);
        oc += NCI(d,k); ov += NVK(d,k);
    }
    if (lu_solve(n, K, x)) for (int i = 0; i < n; i++) x[i] = NAN;
    ov = 0; oe = nv; oc = 0;
    for (int k = 0; k <= N; k++)
    {
        for (int i = 0; i < NVK(d,k); i++) E(sol->ux+k, i) = x[ov+i];
        if (k < N) { for (int j = 0; j < d->nx[k+1]; j++) E(sol->pi+k, j) = x[oe+j]; oe += d->nx[k+1]; }
        for (int i = 0; i < NCI(d,k); i++) E(sol->lam+k, i) = x[ol+oc+i];
        cset c = { d->nb[k], d->ng[k], d->ns[k], d->nu[k]+d->nx[k], qp->idxb[k], qp->idxs_rev[k], qp->DCt+k, qp->d_mask+k };
        compute_dt(c, ov, x, seed->seed_d+k, sol->t+k);
        oc += NCI(d,k); ov += NVK(d,k);
    }
    free(K); free(x);
}
void d_ocp_qp_ipm_sens_adj(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws)
{ d_ocp_qp_ipm_sens_frw(qp, seed, sol, arg, ws); }

void d_dense_qp_ipm_sens_frw(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{
    (void) arg;
    struct d_dense_qp_dim *d = qp->dim;
    int nv = d->nv, ns = d->ns, ne = d->ne, nc = 2*(d->nb+d->ng+d->ns), n = nv+2*ns+ne+nc;
    entry *e = lookup(ws);
    if (!e->lam || e->nlam != nc) no_solution(ws, nc);  /* never solved: zero multipliers */
    double *K = calloc((size_t) n*n+1, sizeof(double)), *x = calloc(n+1, sizeof(double));
    for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) K[i*n+j] += (i >= j) ? M(qp->Hv, i, j) : M(qp->Hv, j, i);
    for (int i = 0; i < 2*ns; i++) K[(nv+i)*n+nv+i] += E(qp->Z, i);
    for (int i = 0; i < nv+2*ns; i++) x[i] = -E(seed->seed_g, i);
    int oe = nv+2*ns;
    for (int j = 0; j < ne; j++)
    {
        for (int i = 0; i < nv; i++) { K[i*n+oe+j] -= M(qp->A, j, i); K[(oe+j)*n+i] -= M(qp->A, j, i); }
        x[oe+j] = -E(seed->seed_b, j);
    }
    cset c = { d->nb, d->ng, ns, nv, qp->idxb, qp->idxs_rev, qp->Ct, qp->d_mask };
    ineq_rows(c, n, K, x, 0, oe+ne, e->lam, e->t, seed->seed_d, seed->seed_m);
    if (lu_solve(n, K, x)) for (int i = 0; i < n; i++) x[i] = NAN;
    for (int i = 0; i < nv+2*ns; i++) E(sol->v, i) = x[i];
    for (int i = 0; i < ne; i++) E(sol->pi, i) = x[oe+i];
    for (int i = 0; i < nc; i++) E(sol->lam, i) = x[oe+ne+i];
    compute_dt(c, 0, x, seed->seed_d, sol->t);
    free(K); free(x);
}
void d_dense_qp_ipm_sens_adj(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws)
{ d_dense_qp_ipm_sens_frw(qp, seed, sol, arg, ws); }

/* ---------------- eq-dof reduction of solutions and seeds ---------------- */
void d_ocp_qp_reduce_eq_dof_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *red, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws)
{
    (void) arg; (void) ws;
    struct d_ocp_qp_dim *d = qp->dim;
    for (int k = 0; k <= d->N; k++)
    {
        int nux = d->nu[k]+d->nx[k], nb = d->nb[k], ng = d->ng[k], ns = d->ns[k];
        int nbe = d->nbue[k]+d->nbxe[k];
        char *fv = calloc(nux+1, 1), *fb = calloc(nb+1, 1);
        for (int i = 0; i < nbe; i++) { fb[qp->idxe[k][i]] = 1; fv[qp->idxb[k][qp->idxe[k][i]]] = 1; }
        int j = 0;
        for (int i = 0; i < nux; i++) if (!fv[i]) { E(red->ux+k, j) = E(sol->ux+k, i); j++; }
        for (int i = 0; i < 2*ns; i++) E(red->ux+k, j+i) = E(sol->ux+k, nux+i);
        if (k < d->N) for (int i = 0; i < d->nx[k+1]; i++) E(red->pi+k, i) = E(sol->pi+k, i);
        j = 0;
        for (int s = 0; s < 2; s++)
        {
            int off = s*(nb+ng);
            for (int i = 0; i < nb; i++) if (!fb[i]) { E(red->lam+k, j) = E(sol->lam+k, off+i); E(red->t+k, j) = E(sol->t+k, off+i); j++; }
            for (int i = 0; i < ng; i++) { E(red->lam+k, j) = E(sol->lam+k, off+nb+i); E(red->t+k, j) = E(sol->t+k, off+nb+i); j++; }
        }
        for (int i = 0; i < 2*ns; i++) { E(red->lam+k, j) = E(sol->lam+k, 2*(nb+ng)+i); E(red->t+k, j) = E(sol->t+k, 2*(nb+ng)+i); j++; }
        free(fv); free(fb);
    }
}
static struct d_ocp_qp_reduce_eq_dof_arg red_arg(struct d_ocp_qp_reduce_eq_dof_arg *arg)
{
    struct d_ocp_qp_reduce_eq_dof_arg a = *arg;
    a.alias_unchanged = 0;
    return a;
}
void d_ocp_qp_reduce_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *red, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws)
{
    struct d_ocp_qp *q = qp_with_seed(qp, seed), *r = new_ocp_qp(red->dim);
    struct d_ocp_qp_reduce_eq_dof_arg a = red_arg(arg);
    d_ocp_qp_reduce_eq_dof(q, r, &a, ws);
    rhs_to_seed(r, red);
    free(q); free(r);
}
void d_ocp_qp_restore_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *red, struct d_ocp_qp_sol *sol, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws)
{
    /* HPIPM clips the multipliers it recovers from below; a sensitivity may have
     * any sign, so everything but the recovered multipliers is copied by hand */
    (void) arg; (void) ws;
    struct d_ocp_qp_dim *d = qp->dim;
    for (int k = 0; k <= d->N; k++)
    {
        int nux = d->nu[k]+d->nx[k], nb = d->nb[k], ng = d->ng[k], ns = d->ns[k];
        int nbe = d->nbue[k]+d->nbxe[k];
        char *fb = calloc(nb+1, 1); int *fv = malloc((nux+1)*sizeof(int));
        for (int i = 0; i < nux; i++) fv[i] = -1;
        for (int i = 0; i < nbe; i++) { fb[qp->idxe[k][i]] = 1; fv[qp->idxb[k][qp->idxe[k][i]]] = qp->idxe[k][i]; }
        int j = 0;
        for (int i = 0; i < nux; i++) { if (fv[i] < 0) { E(sol->ux+k, i) = E(red->ux+k, j); j++; } else E(sol->ux+k, i) = E(seed->seed_d+k, fv[i]); }
        for (int i = 0; i < 2*ns; i++) E(sol->ux+k, nux+i) = E(red->ux+k, j+i);
        if (k < d->N) for (int i = 0; i < d->nx[k+1]; i++) E(sol->pi+k, i) = E(red->pi+k, i);
        j = 0;
        for (int s = 0; s < 2; s++)
        {
            int off = s*(nb+ng);
            for (int i = 0; i < nb; i++)
            {
                if (!fb[i]) { E(sol->lam+k, off+i) = E(red->lam+k, j); E(sol->t+k, off+i) = E(red->t+k, j); j++; }
                else { E(sol->lam+k, off+i) = 0.0; E(sol->t+k, off+i) = 0.0; }
            }
            for (int i = 0; i < ng; i++) { E(sol->lam+k, off+nb+i) = E(red->lam+k, j); E(sol->t+k, off+nb+i) = E(red->t+k, j); j++; }
        }
        for (int i = 0; i < 2*ns; i++) { E(sol->lam+k, 2*(nb+ng)+i) = E(red->lam+k, j); E(sol->t+k, 2*(nb+ng)+i) = E(red->t+k, j); j++; }
        free(fb); free(fv);
    }
    /* multipliers of the eliminated equalities from stationarity */
    for (int k = 0; k <= d->N; k++)
    {
        int nu = d->nu[k], nux = nu+d->nx[k], nb = d->nb[k], ng = d->ng[k];
        for (int q = 0; q < d->nbue[k]+d->nbxe[k]; q++)
        {
            int jb = qp->idxe[k][q], v = qp->idxb[k][jb];
            double r = E(seed->seed_g+k, v);
            for (int i = 0; i < nux; i++) r += ((i >= v) ? M(qp->RSQrq+k, i, v) : M(qp->RSQrq+k, v, i))*E(sol->ux+k, i);
            if (k < d->N) for (int i = 0; i < d->nx[k+1]; i++) r += M(qp->BAbt+k, v, i)*E(sol->pi+k, i);
            if (k > 0 && v >= nu) r -= E(sol->pi+k-1, v-nu);
            for (int i = 0; i < ng; i++) r += M(qp->DCt+k, v, i)*(E(sol->lam+k, 2*nb+ng+i)-E(sol->lam+k, nb+i));
            /* r - lam_lb + lam_ub = 0; put everything in lb (its sign is free here) */
            E(sol->lam+k, jb) = r; E(sol->lam+k, nb+ng+jb) = 0.0;
        }
    }
}

/* ---------------- partial condensing ---------------- */
static void code_sol(struct d_ocp_qp_sol *s)
{
    struct d_ocp_qp_dim *d = s->dim;
    for (int k = 0; k <= d->N; k++)
    {
        for (int i = 0; i < NVK(d,k); i++) E(s->ux+k, i) = 1000.0*(k+1)+i;
        if (k < d->N) for (int i = 0; i < d->nx[k+1]; i++) E(s->pi+k, i) = 1000.0*(k+1)+i;
        for (int i = 0; i < NCI(d,k); i++) { E(s->lam+k, i) = 1000.0*(k+1)+i; E(s->t+k, i) = 1000.0*(k+1)+i; }
    }
}
void d_part_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp *pqp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *psol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    /* expansion copies u, slacks, the first x of each block, lam, t and the last pi of
     * each block verbatim: expand a solution made of index codes to learn the map */
    (void) pqp;
    struct d_ocp_qp_dim *d = qp->dim, *pd = psol->dim;
    struct d_ocp_qp *q = qp_with_seed(qp, NULL);
    struct d_ocp_qp_sol *cs = new_ocp_sol(pd), *os = new_ocp_sol(d);
    code_sol(cs);
    vc_part_cond_qp_expand_sol(q, cs, os, arg, ws);
    int *first = calloc(d->N+2, sizeof(int)); int acc = 0;
    for (int b = 0; b <= pd->N; b++) { first[acc] = b+1; acc += ws->cond_workspace[b].bs; if (acc > d->N+1) acc = d->N+1; }
    /* first[N]: the last block holds stage N, possibly preceded by others */
    for (int k = 0; k <= d->N; k++)
    {
        int nu = d->nu[k], nx = d->nx[k], nux = nu+nx, ns = d->ns[k];
        for (int i = 0; i < nux+2*ns; i++)
        {
            if (i >= nu && i < nux && !first[k]) continue;
            double code = E(os->ux+k, i); int b = (int) (code/1000.0)-1; int j = (int) (code-1000.0*(b+1)+0.5);
            if (b >= 0 && b <= pd->N && j >= 0 && j < NVK(pd,b)) E(psol->ux+b, j) = E(sol->ux+k, i);
        }
        for (int i = 0; i < NCI(d,k); i++)
        {
            double code = E(os->lam+k, i); int b = (int) (code/1000.0)-1; int j = (int) (code-1000.0*(b+1)+0.5);
            if (b >= 0 && b <= pd->N && j >= 0 && j < NCI(pd,b)) { E(psol->lam+b, j) = E(sol->lam+k, i); E(psol->t+b, j) = E(sol->t+k, i); }
        }
        if (k < d->N && first[k+1] > 1)
        {
            int b = first[k+1]-2;
            for (int i = 0; i < d->nx[k+1]; i++) E(psol->pi+b, i) = E(sol->pi+k, i);
        }
    }
    free(first); free(q); free(cs); free(os);
}
void d_part_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *pseed, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    struct d_ocp_qp *q = qp_with_seed(qp, seed), *p = new_ocp_qp(pseed->dim);
    d_part_cond_qp_cond(q, p, arg, ws);
    rhs_to_seed(p, pseed);
    free(q); free(p);
}
void d_part_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *psol, struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{
    struct d_ocp_qp *q = qp_with_seed(qp, seed);
    vc_part_cond_qp_expand_sol(q, psol, sol, arg, ws);
    free(q);
}

/* ---------------- full condensing ---------------- */
void d_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_dense_qp_sol *dsol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    struct d_ocp_qp_dim *d = qp->dim; struct d_dense_qp_dim *dd = dsol->dim;
    struct d_ocp_qp *q = qp_with_seed(qp, NULL);
    struct d_ocp_qp_sol *os = new_ocp_sol(d);
    size_t h = al(sizeof(struct d_dense_qp_sol)); char *m = amalloc(h + d_dense_qp_sol_memsize(dd));
    struct d_dense_qp_sol *cs = (struct d_dense_qp_sol *) m; d_dense_qp_sol_create(dd, cs, m+h);
    int nv = dd->nv+2*dd->ns, nc = 2*(dd->nb+dd->ng+dd->ns);
    for (int i = 0; i < nv; i++) E(cs->v, i) = 1000.0+i;
    for (int i = 0; i < nc; i++) { E(cs->lam, i) = 1000.0+i; E(cs->t, i) = 1000.0+i; }
    d_cond_qp_expand_sol(q, cs, os, arg, ws);
    for (int k = 0; k <= d->N; k++)
    {
        int nu = d->nu[k], nux = nu+d->nx[k];
        for (int i = 0; i < NVK(d,k); i++)
        {
            if (i >= nu && i < nux && k > 0) continue;
            int j = (int) (E(os->ux+k, i)-1000.0+0.5); if (j >= 0 && j < nv) E(dsol->v, j) = E(sol->ux+k, i);
        }
        for (int i = 0; i < NCI(d,k); i++)
        {
            int j = (int) (E(os->lam+k, i)-1000.0+0.5);
            if (j >= 0 && j < nc) { E(dsol->lam, j) = E(sol->lam+k, i); E(dsol->t, j) = E(sol->t+k, i); }
        }
    }
    free(q); free(os); free(m);
}
void d_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_seed *dseed, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    struct d_ocp_qp *q = qp_with_seed(qp, seed); struct d_dense_qp_dim *dd = dseed->dim;
    size_t h = al(sizeof(struct d_dense_qp)); char *m = amalloc(h + d_dense_qp_memsize(dd));
    struct d_dense_qp *p = (struct d_dense_qp *) m; d_dense_qp_create(dd, p, m+h);
    d_cond_qp_cond(q, p, arg, ws);
    int nc = 2*(dd->nb+dd->ng+dd->ns);
    blasfeo_dveccp(dd->nv+2*dd->ns, p->gz, 0, dseed->seed_g, 0); blasfeo_dveccp(dd->ne, p->b, 0, dseed->seed_b, 0);
    blasfeo_dveccp(nc, p->d, 0, dseed->seed_d, 0); blasfeo_dveccp(nc, p->m, 0, dseed->seed_m, 0);
    free(q); free(m);
}
void d_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_sol *dsol, struct d_ocp_qp_sol *sol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws)
{
    struct d_ocp_qp *q = qp_with_seed(qp, seed);
    d_cond_qp_expand_sol(q, dsol, sol, arg, ws);
    free(q);
}
