#ifndef VERIF_HPIPM_D_DENSE_QP_SEED_H_
#define VERIF_HPIPM_D_DENSE_QP_SEED_H_
#include "blasfeo_target.h"
#include "blasfeo_common.h"
#include "hpipm_common.h"
#include "hpipm_d_dense_qp_dim.h"
struct d_dense_qp_seed
{
    struct d_dense_qp_dim *dim;
    struct blasfeo_dvec *seed_g;
    struct blasfeo_dvec *seed_b;
    struct blasfeo_dvec *seed_d;
    struct blasfeo_dvec *seed_m;
    hpipm_size_t memsize;
};
hpipm_size_t d_dense_qp_seed_memsize(struct d_dense_qp_dim *dim);
void d_dense_qp_seed_create(struct d_dense_qp_dim *dim, struct d_dense_qp_seed *seed, void *mem);
void d_dense_qp_seed_set_zero(struct d_dense_qp_seed *seed);
void d_dense_qp_seed_print(struct d_dense_qp_dim *dim, struct d_dense_qp_seed *seed);
#endif
