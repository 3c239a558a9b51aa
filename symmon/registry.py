"""Number of cases per tier and time limits.  Imported without symfit."""
# id: (quick cases, thorough cases, seconds per case)
CASES = {
    'C01': (2000, 40000, 20),
    'C02': (1600, 16000, 30),
    'C03': (900, 9000, 40),
    'C04': (800, 12000, 30),
    'C05': (800, 12000, 30),
    'C06': (500, 6000, 40),
    'C07': (600, 10000, 30),
    'C12': (500, 8000, 40),
    'C13': (400, 8000, 40),
    'C08': (300, 6000, 60),
    'C09': (300, 6000, 60),
    'C10': (400, 6000, 60),
    'C14': (300, 5000, 60),
    'C15': (220, 4000, 90),
    'C16': (400, 5000, 60),
    'C18': (1500, 12000, 60),
    'C19': (1200, 8000, 60),
    'C20': (800, 10000, 60),
    'C21': (800, 10000, 40),
    'C23': (200, 3000, 60),
    'C22': (12000, 100000, 20),
    'C24': (3000, 20000, 40),
    'C25': (3000, 30000, 40),
    'C17': (250, 4000, 90),
    'C11': (300, 6000, 60),
}

TECHNIQUE = {
    'C01': 'evaluations of real models judged online against an independent evaluator',
    'C02': 'evaluated Jacobians judged online against independent automatic differentiation',
    'C03': 'evaluated Hessians judged online against independent second-order automatic differentiation',
    'C04': 'finite-difference Jacobians judged online against independent automatic differentiation at hostile scales',
    'C05': 'objective evaluations judged online against their definitions on ragged, absent and broadcast data',
    'C06': 'objective gradients and Hessians judged online against automatic differentiation of the definition',
    'C07': 'spy minimizers record the data a fit binds; judged against the data handed over',
    'C08': 'every model evaluation of a fit recorded and checked for moving fixed parameters; result judged against the fit with constants',
    'C09': 'every model evaluation of a bounded fit recorded and checked against the box; result judged against an exact quadratic-programming oracle',
    'C10': 'results of constrained fits judged against the relations as written and an exact quadratic-programming oracle',
    'C11': 'results of fits judged against independently computed optima',
    'C12': 'reported covariances judged against independently differentiated objectives at the reported optimum',
    'C13': 'consistency monitor over every field of the results of executed fits and their printed reports',
    'C14': 'state snapshots of everything the user owns compared before and after fits; repeated executions compared',
    'C15': 'behaviour of pickled objects recorded in this process, a fresh interpreter and a pool, and compared',
    'C16': 'ODE model evaluations judged against closed-form and independently integrated solutions',
    'C17': 'the same problem run renamed, permuted and under other hash seeds; outputs compared symbol by symbol',
    'C18': 'numerical models judged against the independent evaluator and calls recorded by instrumented callables',
    'C19': 'spy minimizers record the order, start, options and results of every stage; trace checked against the specification',
    'C20': 'scipy entry points patched to record what the optimiser is handed; problem checked for consistency by differencing',
    'C21': 'expression and distribution evaluations judged against closed forms and an independent evaluator',
    'C22': 'created symbols judged attribute by attribute against the request',
    'C23': 'figures and parameters observed after random sequences of slider moves, judged against independent evaluations',
    'C24': 'outcomes of model algebra judged against an independent evaluator and structural oracle',
    'C25': 'matrix model evaluations judged against numpy linear algebra',
}
NOTE = {}
