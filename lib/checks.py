"""One function per property: which specifications are model checked, which drivers run, which traces are validated."""
CHECKS = {}

def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco

def pick(ck, quick, thorough):
    return thorough if ck.thorough else quick

@check('C12')
def c12(ck):
    ck.mc('LazyAStar_MC', pick(ck, 'LazyAStar_MC.cfg', 'LazyAStar_MC_thorough.cfg'))
    tr = ck.drive('drv_graph', ['--families', 'astar'])
    ck.validate('LazyAStar_Trace', tr)

@check('C13')
def c13(ck):
    ck.mc('LRTAStar_MC', pick(ck, 'LRTAStar_MC.cfg', 'LRTAStar_MC_thorough.cfg'))
    ck.validate('LRTAStar_Trace', ck.drive('drv_graph', ['--families', 'lrta']))
    ck.validate('Greedy_Trace', ck.drive('drv_graph', ['--families', 'greedy']))

@check('C14')
def c14(ck):
    ck.mc('GraphExplore_MC')
    ck.validate('GraphExplore_Trace', ck.drive('drv_explore'))

def sched(ck, *prefixes):
    ck.mc('Scheduling_MC', pick(ck, 'Scheduling_MC.cfg', 'Scheduling_MC_thorough.cfg'))
    ck.validate('Scheduling_Trace', ck.drive('drv_sched'), clauses=lambda c: c.startswith(prefixes))

@check('C08')
def c08(ck): sched(ck, 'init', 'life', 'time', 'value', 'branch', 'memory')
@check('C09')
def c09(ck): sched(ck, 'init', 'res', 'memory')
@check('C10')
def c10(ck): sched(ck, 'dist', 'branch', 'memory')
@check('C11')
def c11(ck): sched(ck, 'init', 'offer', 'goal', 'terminal')

def envd(ck, *prefixes):
    ck.mc('EnvDomain_MC', pick(ck, 'EnvDomain_MC.cfg', 'EnvDomain_MC_thorough.cfg'))
    ck.validate('EnvDomain_Trace', ck.drive('drv_env'), clauses=lambda c: c.startswith(prefixes))

@check('C02')
def c02(ck): envd(ck, 'memory', 'reset', 'outcome', 'info')
@check('C03')
def c03(ck):
    envd(ck, 'query')
    ck.validate('CoreData_Trace', ck.drive('drv_core'), clauses=lambda c: c.startswith('query'))
@check('C04')
def c04(ck):
    envd(ck, 'dual', 'value', 'dist', 'outcome', 'info')
    ck.validate('CoreData_Trace', ck.drive('drv_core'), clauses=lambda c: not c.startswith('query'))

@check('C06')
def c06(ck):
    ck.mc('Rollout_MC', pick(ck, 'Rollout_MC.cfg', 'Rollout_MC_thorough.cfg'))
    ck.validate('Rollout_Trace', ck.drive('drv_rollout'))

@check('C07')
def c07(ck):
    for cfg in pick(ck, ['', '_ipc', '_lazy'], ['', '_ipc', '_lazy', '_thorough']):
        ck.mc('PoolPipe_MC', 'PoolPipe_MC%s.cfg' % cfg)
    ck.validate('ParallelPool_Trace', ck.drive('drv_pool'))

@check('C01')
def c01(ck):
    ck.mc('Adapt_MC', pick(ck, 'Adapt_MC.cfg', 'Adapt_MC_thorough.cfg'))
    ck.validate('Adapt_Trace', ck.drive('drv_adapt'))

@check('C05')
def c05(ck):
    ck.mc('SolverMatch_MC', pick(ck, 'SolverMatch_MC.cfg', 'SolverMatch_MC_thorough.cfg'))
    ck.validate('SolverMatch_Trace', ck.drive('drv_match'))

@check('C17')
def c17(ck):
    ck.mc('ResultStore_MC', pick(ck, 'ResultStore_MC.cfg', 'ResultStore_MC_thorough.cfg'))
    ck.validate('ResultStore_Trace', ck.drive('drv_store'))

@check('C18')
def c18(ck):
    ck.mc('LocalSearch_MC', pick(ck, 'LocalSearch_MC.cfg', 'LocalSearch_MC_thorough.cfg'))
    ck.validate('LocalSearch_Trace', ck.drive('drv_ls'))

@check('C19')
def c19(ck):
    ck.mc('Mutation_MC', pick(ck, 'Mutation_MC.cfg', 'Mutation_MC_thorough.cfg'))
    ck.validate('Mutation_Trace', ck.drive('drv_mut'))

@check('C15')
def c15(ck):
    ck.mc('Rcpsp_MC', pick(ck, 'Rcpsp_MC.cfg', 'Rcpsp_MC_thorough.cfg'))
    ck.validate('Rcpsp_Trace', ck.drive('drv_rcpsp'))

@check('C16')
def c16(ck):
    ck.mc('MsRcpsp_MC', pick(ck, 'MsRcpsp_MC.cfg', 'MsRcpsp_MC_thorough.cfg'))
    ck.validate('MsRcpsp_Trace', ck.drive('drv_staff'))

@check('C20')
def c20(ck):
    ck.mc('Convert_MC', pick(ck, 'Convert_MC.cfg', 'Convert_MC_thorough.cfg'))
    ck.validate('Convert_Trace', ck.drive('drv_convert'))

@check('C24')
def c24(ck):
    ck.mc('Aggregate_MC', pick(ck, 'Aggregate_MC.cfg', 'Aggregate_MC_thorough.cfg'))
    ck.validate('Aggregate_Trace', ck.drive('drv_aggreg'))

@check('C22')
def c22(ck):
    ck.mc('Games_MC', pick(ck, 'Games_MC.cfg', 'Games_MC_thorough.cfg'))
    ck.validate('Games_Trace', ck.drive('drv_games'))

@check('C25')
def c25(ck):
    ck.mc('GymWrap_MC', pick(ck, 'GymWrap_MC.cfg', 'GymWrap_MC_thorough.cfg'))
    ck.validate('GymWrap_Trace', ck.drive('drv_gym'))

@check('C23')
def c23(ck):
    ck.mc('Combi_MC', pick(ck, 'Combi_MC.cfg', 'Combi_MC_thorough.cfg'))
    ck.validate('Combi_Trace', ck.drive('drv_combi'))

@check('C26')
def c26(ck):
    ck.mc('Routing_MC', pick(ck, 'Routing_MC.cfg', 'Routing_MC_thorough.cfg'))
    ck.validate('Routing_Trace', ck.drive('drv_route'))

@check('C21')
def c21(ck):
    ck.mc('Policy_MC', pick(ck, 'Policy_MC.cfg', 'Policy_MC_thorough.cfg'))
    ck.validate('Policy_Trace', ck.drive('drv_policy'))

@check('C27')
def c27(ck):
    ck.mc('Exact_MC', pick(ck, 'Exact_MC.cfg', 'Exact_MC_thorough.cfg'))
    ck.validate('Exact_Trace', ck.drive('drv_exact'))

@check('C28')
def c28(ck):
    ck.mc('Exact2_MC', pick(ck, 'Exact2_MC.cfg', 'Exact2_MC_thorough.cfg'))
    ck.validate('Exact2_Trace', ck.drive('drv_exact2'))
