/* Force-included (-include) in front of every acados translation unit that the
 * checks compile.  acados is written against a newer HPIPM than the one shipped
 * in the casadi wheel (the only HPIPM available offline).  This header declares
 * the functions missing there and redirects those whose signature changed.
 * Nothing of acados itself lives here. */
#ifndef VERIF_HPIPM_COMPAT_H_
#define VERIF_HPIPM_COMPAT_H_
#include <stddef.h>
#include "blasfeo_target.h"
#include "blasfeo_common.h"
#include "hpipm_common.h"
#include "hpipm_d_ocp_qp_dim.h"
#include "hpipm_d_ocp_qp.h"
#include "hpipm_d_ocp_qp_sol.h"
#include "hpipm_d_ocp_qp_res.h"
#include "hpipm_d_core_qp_ipm.h"
#include "hpipm_d_ocp_qp_ipm.h"
#include "hpipm_d_ocp_qp_red.h"
#include "hpipm_d_ocp_qp_utils.h"
#include "hpipm_d_dense_qp_dim.h"
#include "hpipm_d_dense_qp.h"
#include "hpipm_d_dense_qp_sol.h"
#include "hpipm_d_dense_qp_res.h"
#include "hpipm_d_dense_qp_ipm.h"
#include "hpipm_d_dense_qp_utils.h"
#include "hpipm_d_cond.h"
#include "hpipm_d_part_cond.h"
#include "hpipm/include/hpipm_d_ocp_qp_seed.h"
#include "hpipm/include/hpipm_d_dense_qp_seed.h"

void vc_ocp_qp_ipm_arg_set(char *field, void *value, struct d_ocp_qp_ipm_arg *arg);
void vc_ocp_qp_ipm_arg_set_default(enum hpipm_mode mode, struct d_ocp_qp_ipm_arg *arg);
void vc_ocp_qp_ipm_solve(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void d_ocp_qp_ipm_arg_get(char *field, struct d_ocp_qp_ipm_arg *arg, void *value);
void d_ocp_qp_ipm_get_tau_iter(struct d_ocp_qp_ipm_ws *ws, double *value);
void d_ocp_qp_ipm_sens_frw(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void d_ocp_qp_ipm_sens_adj(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sol, struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void d_ocp_qp_set_m_all(double *value, struct d_ocp_qp *qp);
void d_ocp_qp_get_idxe(int stage, struct d_ocp_qp *qp, int *vec);

void vc_dense_qp_ipm_arg_set(char *field, void *value, struct d_dense_qp_ipm_arg *arg);
void vc_dense_qp_ipm_arg_set_default(enum hpipm_mode mode, struct d_dense_qp_ipm_arg *arg);
void vc_dense_qp_ipm_solve(struct d_dense_qp *qp, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
void d_dense_qp_ipm_arg_get(char *field, struct d_dense_qp_ipm_arg *arg, void *value);
void d_dense_qp_ipm_sens_frw(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
void d_dense_qp_ipm_sens_adj(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sol, struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
void d_dense_qp_set_m_all(double *value, struct d_dense_qp *qp);
void d_dense_qp_dim_get_nv(struct d_dense_qp_dim *dim, int *value);

void vc_reduce_set_alias_unchanged(int *value, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void vc_reduce_set_comp_dual_sol_eq(int *value, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void vc_reduce_set_comp_dual_sol_ineq(int *value, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void vc_part_cond_qp_expand_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *psol, struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);

void d_ocp_qp_reduce_eq_dof_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *red, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_ocp_qp_reduce_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *red, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_ocp_qp_restore_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *red, struct d_ocp_qp_sol *sol, struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_part_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp *pqp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *psol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_part_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *pseed, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_part_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *psol, struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_dense_qp_sol *dsol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_seed *dseed, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_sol *dsol, struct d_ocp_qp_sol *sol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);

#ifndef VERIF_HPIPM_COMPAT_IMPL
#define d_ocp_qp_ipm_arg_set vc_ocp_qp_ipm_arg_set
#define d_ocp_qp_ipm_arg_set_default vc_ocp_qp_ipm_arg_set_default
#define d_ocp_qp_ipm_solve vc_ocp_qp_ipm_solve
#define d_dense_qp_ipm_arg_set vc_dense_qp_ipm_arg_set
#define d_dense_qp_ipm_arg_set_default vc_dense_qp_ipm_arg_set_default
#define d_dense_qp_ipm_solve vc_dense_qp_ipm_solve
#define d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged vc_reduce_set_alias_unchanged
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq vc_reduce_set_comp_dual_sol_eq
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq vc_reduce_set_comp_dual_sol_ineq
#define d_part_cond_qp_expand_sol vc_part_cond_qp_expand_sol
#endif
#endif
