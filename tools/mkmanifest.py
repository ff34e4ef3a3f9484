#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = 'runtime monitoring: online reference-model oracle on the real code under generated stateful workloads'
REL = 'runtime monitoring: reference-model and algebraic (metamorphic) oracles on the real code under generated workloads'
FLT = 'runtime monitoring with fault injection: state snapshots around calls whose k-th callback fails, for every k'
RES = 'runtime monitoring: residual oracle (results are substituted back by an independent valuation) under generated workloads'
T = {}
for i in range(1, 42):
    T['C%02d' % i] = REF
for i in (8, 9, 12, 15, 22, 23, 24, 33):
    T['C%02d' % i] = REL
for i in (26, 27, 30):
    T['C%02d' % i] = RES
T['C31'] = T['C39'] = FLT
T['C37'] = 'runtime monitoring: twin execution oracle (equal markets, equal changes, different reads) on the real code under generated histories'
T['C38'] = REL
NOTE = {
    'C01': 'Every value is compared with an independent closed form (scan of the points, no bisect); trusts math and float rounding tolerances.',
    'C02': 'Histories of assignments and reads are replayed on a dict model and a fresh curve; every read is compared.',
    'C03': 'Year fractions are recomputed from date ordinals; every date curve is compared with its plain curve on year fractions.',
    'C04': 'A dict model with overlays is kept in step with the curve; all values before, between and after are compared.',
    'C05': 'Operands are evaluated by their models, operands snapshotted before and after.',
    'C06': 'Rebuilt curves are compared by value at and off the points and by their conventions, the source by snapshot.',
    'C07': 'Every cell of each table is recomputed by one curve call; shape rules from the documentation.',
    'C15': 'Terminal volatilities are compared with interpolation of the reference, instantaneous ones with the exact integral within 1e-3 (quadrature of the library).',
    'C22': 'Values against the exact normal distribution (erfc), tolerance 1e-7 of the scale (documented accuracy of the library cdf).',
    'C23': 'Greeks against analytic derivatives of the exact formula resp. the same finite difference of reference values.',
    'C24': 'As C22; put values of the binary models are a known finding (reported, exact wrong formula checked so that any other value is a violation).',
    'C31': 'Every callback index of every generated call is failed once and argument state is compared with a deep snapshot; assumes callbacks are the only source of exceptions besides missing solutions.',
    'C36': 'Exact integrals of the reference function; tolerance 5e-4 (kinks) resp. 3e-3 (jumps) of the largest value since the library leaves accuracy to scipy quad.',
    'C37': 'The untouched twin is the oracle; differences of reads are exact comparisons of printed floats; addresses are masked.',
    'C38': 'The market at its first calendar is the oracle for the moved ones; tolerances cover cancellation in float dates.',
    'C39': 'Every call of the day count callback during an assignment is failed once; state is compared by values, domain, fixings and kwargs.',
    'C40': 'Cells are recomputed from the arguments and from the other cells of their row; model columns by the exact model formula.',
    'C41': 'The printed text is evaluated and the built object compared with the printed one.',
    'C35': 'Schedules are rebuilt by an independent roll; default day counts and asset_swap are known findings.',
}
GEN = 'Oracle decisions on executions of the real code only: %s Nothing is claimed for inputs outside the generated classes in the quantifier; seeds vary with VERIF_SEED.'
DEF = 'each observed value is compared with an independent reference computation within rounding tolerances.'
checks = []
for i in range(1, 42):
    pid = 'C%02d' % i
    checks.append(dict(property=pid, quick_cmd='/opt/venv/bin/python run_check.py ' + pid,
                       thorough_cmd='/opt/venv/bin/python run_check.py %s --thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=T[pid],
                       level='fault_enumeration' if pid in ('C31', 'C39') else 'exploration', level_note=GEN % NOTE.get(pid, DEF)))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'/repo\'); import dcf"',
               hooks=dict(guard='DCFMON', enable='not needed: all monitors attach from outside (wrapped callables, public API, sys.monitoring line events); no hook is committed in /repo', source_commits=[]),
               checks=checks, not_applicable=[],
               notes='KNOWN-FINDING entries are in known_findings.json. All checks are deterministic for a given VERIF_SEED.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
