import json,sys
sys.path.insert(0,'/verif')
import jobs
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
TECH={
'C01':'runtime monitor: quadruple-precision reference oracle over whole-domain random and hostile points',
'C02':'runtime monitor: quadruple-precision derivative oracle over whole-domain points and random programs',
'C03':'runtime monitor: exact-partials oracle with a-priori rounding bounds, every operand form, plus random programs',
'C04':'runtime monitor: exact-partials oracle for power and hypot over every operand form and special exponent',
'C05':'runtime monitor: shadow recording of random programs and quadruple-precision total derivatives',
'C06':'runtime monitor: bit-level snapshot of every value and adjoint around every operation',
'C07':'runtime monitor: history checker over reset and gradient sequences',
'C08':'differential monitor over storage positions, growth points and build configurations',
'C09':'differential monitor: program with nested scopes against the same program without',
'C10':'runtime monitor: shadow recording of nested scopes with per-scope adjoint oracle',
'C11':'runtime monitor around gradient(): value, partials, and state left behind',
'C12':'runtime monitor around jacobian(): values, partials, and state left behind',
'C13':'runtime monitor: quadruple-precision oracle over array reductions of hostile lengths, layouts and scales',
'C14':'runtime monitor: quadruple-precision oracle over matrix products of random shapes with shared variables',
'C15':'runtime monitor: bit-level oracle of the six relations on special and random values',
'C16':'runtime monitor: bit-level oracle of construction and assignment forms',
'C17':'differential monitor: array form against scalar form, element by element, bit for bit',
'C18':'runtime monitor: quadruple-precision log density and gradient oracle',
'C19':'runtime monitor: quadruple-precision log density and gradient oracle',
'C20':'runtime monitor: quadruple-precision digamma oracle over the whole line',
'C21':'runtime monitor: returned states against exact flows of composed test systems, controls observed by counting callbacks',
'C22':'runtime monitor: adjoints of initial states against exact flow derivatives of composed test systems',
'C23':'runtime monitor: adjoints of parameters against exact solution derivatives of composed test systems',
'C24':'runtime monitor around the solver callbacks: exact right-hand side and Jacobian oracle',
'C25':'differential monitor: program with ODE solves against the same program without, repetition bit for bit',
'C26':'child processes whose solve must fail with an error',
'C33':'differential monitor: a solve against its mirrored, rescaled or refined twin, bit for bit',
'C34':'runtime monitor: counting callbacks against bounds of the methods and against averages over fixed problems',
'C35':'runtime monitor with shadow vectors in extended precision; thread, address and undefined-behaviour sanitizers',
'C36':'runtime monitor with dense shadows in extended precision; address and undefined-behaviour sanitizers',
'C37':'runtime monitor of residuals and factors in extended precision; address and undefined-behaviour sanitizers',
'C38':'runtime monitor of true residuals and of the same methods in extended precision; address and undefined-behaviour sanitizers',
'C39':'runtime monitor: step-by-step monitor of CVODES integrations, extended-precision reference solutions, averages over fixed cases; address and undefined-behaviour sanitizers',
'C40':'runtime monitor: root functions with known crossings; address and undefined-behaviour sanitizers',
'C41':'runtime monitor: step-by-step monitor and extended-precision references of sensitivities and integrals, averages over fixed cases; address and undefined-behaviour sanitizers',
'C42':'runtime monitor: gradients of an extended-precision reference, checks of checkpoints, times and arguments of the callbacks, averages over fixed cases; address and undefined-behaviour sanitizers',
'C43':'runtime monitor with fault injection: failing callbacks, work limits, refused calls; flags against the documented ones, solutions against an extended-precision reference, repeated runs bitwise; address and undefined-behaviour sanitizers',
'C44':'runtime monitor: every iterate predicted from the calls seen (linear systems, line search, Anderson acceleration in extended precision), success against the known root, fault injection, repeated solves bitwise, leak monitor; address and undefined-behaviour sanitizers',
'C45':'runtime monitor: shadow integrator predicting the stored history, step and order after every accepted step from the history before; address and undefined-behaviour sanitizers',
'C46':'runtime monitor: replay of the solver call log, long double fixed-point and Anderson reference, elementwise reference of wrapped vectors; address and undefined-behaviour sanitizers',
'C47':'runtime monitor: reference solution, sensitivities and gradients in extended precision, residuals of the returned values, replay of the calls made, injected failures; address and undefined-behaviour sanitizers',
'C31':'runtime monitor: clients of installations against the same clients in the build tree',
'C27':'address and undefined-behaviour sanitizers with bounds checks under the whole workload',
'C28':'runtime monitor: special-value oracle, and child processes that must stop',
'C29':'runtime monitor: shadow recording of programs of user-defined operations',
'C30':'runtime monitor: shadow model of the derivative record',
'C32':'child processes with predicted outcome',
}
TECH.update(getattr(jobs,'TECH',{}))
NA=getattr(jobs,'NOT_APPLICABLE',{})
checks=[];na=[]
for p in props:
    i=p['id']
    if i in jobs.TABLE or i in jobs.EXTRA:
        checks.append(dict(property=i,quick_cmd='python3 run.py %s quick'%i,thorough_cmd='python3 run.py %s thorough'%i,technique=TECH[i],level='exploration',
          level_note='Held on the executions made (counted in the evidence); trusts the gfortran run-time library (quadruple precision) as reference and the rounding bounds documented in DESIGN.md.'))
    else:
        na.append(dict(property=i,reason=NA.get(i,'no check yet: under construction')))
m=dict(version=1,setup_cmd='sh setup.sh',checks=checks,not_applicable=na,notes='All checks: python3 run.py <property> <tier>; replay: python3 run.py --replay <file>. No hooks in /repo are needed.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
