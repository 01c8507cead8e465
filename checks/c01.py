import simcase
def init(job):
    import acados_template.utils as U
    U.is_tera_version_sufficient = lambda *a: True
def strategy(tier):
    return simcase.strategy(False)
def run(case):
    return simcase.run(case, False)
