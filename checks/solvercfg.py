"""Random solver configurations for a problem of ocpgen, restricted to the documented combinations."""
from hypothesis import strategies as st

REG = ['NO_REGULARIZE', 'NO_REGULARIZE', 'PROJECT', 'MIRROR', 'CONVEXIFY', 'PROJECT_REDUC_HESS', 'GERSHGORIN_LEVENBERG_MARQUARDT']


@st.composite
def config(draw, types=('SQP', 'SQP', 'SQP', 'SQP_WITH_FEASIBLE_QP', 'DDP', 'SQP_RTI'),
           qps=('PARTIAL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_OSQP'),
           reg=tuple(REG)):
    b = st.booleans()
    rare = st.integers(0, 3).map(lambda v: v == 3)
    o = {'type': draw(st.sampled_from(list(types))), 'qp': draw(st.sampled_from(list(qps)))}
    o['glob'] = draw(st.sampled_from(['FIXED_STEP', 'FIXED_STEP', 'MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH']))
    o['condN'] = draw(st.integers(0, 5))
    o['block'] = draw(rare)
    o['reg'] = draw(st.sampled_from(list(reg)))
    o['ric'] = draw(st.integers(0, 1))
    o['cric'] = draw(st.integers(0, 1))
    o['warm'] = draw(st.sampled_from([0, 0, 1, 2]))
    o['warmfirst'] = draw(rare)
    o['mode'] = draw(st.sampled_from(['BALANCE', 'BALANCE', 'ROBUST', 'SPEED']))
    o['qscale'] = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    o['tolstrat'] = draw(st.sampled_from(['FIXED_QP_TOL', 'FIXED_QP_TOL', 'ADAPTIVE_CURRENT_RES_JOINT']))
    o['lm'] = draw(st.sampled_from([0.0, 0.0, 0.0, 1e-2, 0.3]))
    o['soc'] = draw(rare)
    o['fixhess'] = draw(rare)
    o['anderson'] = draw(rare)
    o['tol'] = draw(st.sampled_from([1e-4, 1e-6, 1e-6, 1e-8]))
    o['feasdir'] = draw(st.sampled_from(['NOMINAL_QP', 'BYRD_OMOJOKUN']))
    o['extres'] = draw(rare)
    return o


def coerce(o, c):
    """make the configuration one the description accepts for problem c"""
    o = dict(o)
    t = o['type']
    cons = any(c.get(k) for k in ('nbu', 'nbx', 'ng', 'nh', 'nh0', 'nge', 'nhe', 'nbxe'))
    if t == 'SQP_WITH_FEASIBLE_QP' and (c.get('rev') or c.get('lbs') or c.get('cint')):
        t = 'SQP'
    if t == 'DDP' and (cons or c['x0'] != 'x0' or c['nz']):
        t = 'SQP'
    o['type'] = t
    if o['qp'] == 'PARTIAL_CONDENSING_OSQP':
        if c.get('rev') or c.get('onesided'):
            o['qp'] = 'PARTIAL_CONDENSING_HPIPM'
        else:
            o['tol'] = max(o['tol'], 1e-4)
            if t == 'SQP_WITH_FEASIBLE_QP':
                o['type'] = t = 'SQP'
    if t == 'DDP':
        o['qp'], o['condN'], o['block'] = 'PARTIAL_CONDENSING_HPIPM', c['N'], False
        if o['glob'] == 'FUNNEL_L1PEN_LINESEARCH':
            o['glob'] = 'MERIT_BACKTRACKING'
        o['reg'] = 'NO_REGULARIZE'
    if t == 'SQP_WITH_FEASIBLE_QP':
        o['glob'] = 'FUNNEL_L1PEN_LINESEARCH'
    if t == 'SQP_RTI':
        o['qscale'], o['tolstrat'] = 0, 'FIXED_QP_TOL'
        o['glob'] = 'FIXED_STEP'
    if c['nz'] and any(c.get(k) for k in ('nh', 'nh0', 'nhe')) and o['glob'] != 'FIXED_STEP':
        o['glob'] = 'FIXED_STEP'        # constraint value function documented as not implemented for this combination
        if t == 'SQP_WITH_FEASIBLE_QP':
            o['type'] = 'SQP'
    if c['hess'] == 'EXACT' or not all(k in (None, 'LINEAR_LS') for k in (c['cost'], c['cost0'], c['coste'])):
        o['fixhess'] = False
    if o['type'] == 'SQP_WITH_FEASIBLE_QP':
        o['fixhess'] = False            # documented as not supported
    if o['anderson'] and (o['glob'] != 'FIXED_STEP' or o['type'] == 'DDP'):
        o['anderson'] = False
    o['condN'] = min(o['condN'], c['N']) if o['condN'] else c['N']
    if o['reg'] == 'PROJECT_REDUC_HESS' and o['qp'] != 'PARTIAL_CONDENSING_HPIPM':
        o['reg'] = 'PROJECT'
    if o['reg'] in ('PROJECT_REDUC_HESS', 'CONVEXIFY') and o['fixhess']:
        o['fixhess'] = False
    return o


def apply(o, ocp):
    s = ocp.solver_options
    s.nlp_solver_type = o['type']
    s.qp_solver = o['qp']
    s.globalization = o['glob']
    s.qp_solver_cond_N = o['condN']
    N = s.N_horizon
    if o['block'] and 'PARTIAL' in o['qp']:
        n, blocks, left = o['condN'], [], N
        for i in range(n):
            k = max(1, left - (n - i - 1)) if i == 0 else 1
            blocks.append(k)
            left -= k
        s.qp_solver_cond_block_size = blocks + [left]
    s.regularize_method = o['reg']
    s.qp_solver_ric_alg, s.qp_solver_cond_ric_alg = o['ric'], o['cric']
    s.qp_solver_warm_start = o['warm']
    s.nlp_solver_warm_start_first_qp = o['warmfirst']
    s.hpipm_mode = o['mode']
    if o['qscale'] & 1:
        s.qpscaling_scale_objective = 'OBJECTIVE_GERSHGORIN'
    if o['qscale'] & 2:
        s.qpscaling_scale_constraints = 'INF_NORM'
    if o['type'] != 'SQP_RTI':
        s.nlp_qp_tol_strategy = o['tolstrat']
    s.levenberg_marquardt = o['lm']
    if o['glob'] == 'MERIT_BACKTRACKING' and o['soc']:
        s.globalization_use_SOC = 1
    s.fixed_hess = int(o['fixhess'])
    s.with_anderson_acceleration = o['anderson']
    s.nlp_solver_tol_stat = s.nlp_solver_tol_eq = s.nlp_solver_tol_ineq = s.nlp_solver_tol_comp = o['tol']
    if o['type'] == 'SQP_WITH_FEASIBLE_QP':
        s.search_direction_mode = o['feasdir']
    s.nlp_solver_ext_qp_res = int(o['extres'])
    s.nlp_solver_max_iter = 200
    s.qp_solver_iter_max = 200 if 'OSQP' not in o['qp'] else 20000


def labels(o):
    return [o['type'], o['qp'], 'glob:' + o['glob'], 'reg:' + o['reg']] + ['qpscaling'] * bool(o['qscale']) + \
        [k for k in ('anderson', 'fixhess', 'block') if o[k]]
