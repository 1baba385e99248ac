"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
case = 'Quint specification evaluates the exact value of generated cases; behaviours replayed in the library'
rel = 'Quint specification of argument transformations and their effect; behaviours replayed in the library'
ses = 'Quint state machine of the library session; behaviours replayed step by step, state and results compared'
nc = 'Exact (80 digit) values of sampled elements; inputs are generated, not exhaustive; tolerance as in DESIGN.md (Accuracy). Trusts the replay driver and the definitions in the specification.'
for p in ('C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C15', 'C16', 'C17'):
    T[p] = (case, 'exploration', nc)
for p in ('C11', 'C12', 'C13'):
    T[p] = (rel, 'exploration', 'Every element of every matrix of generated calls; relations are checked on the exact values of the specification (invariant relationHolds). Generated inputs, not exhaustive.')
for p in ('C02', 'C03', 'C04', 'C14', 'C21'):
    T[p] = (ses, 'exploration', 'Random behaviours of the session machine, every step observed (object dumps, settings, heap accounting, guard zones, bit-identity with earlier equal calls and fresh processes).')
conc = 'TLA+ design of the shared state model checked with TLC; its behaviours replayed as schedules of real threads, recorded traces checked against the TLA+ trace specification'
for p in ('C01', 'C02'):
    T[p] = (conc + ('' if p == 'C01' else '; Quint session behaviours replayed'), 'model_checking',
            'Design exhaustive for 3 threads and a bounded number of operations (safety, refinement, termination); the code is bound to it by '
            'compiler-instrumented replay: every shared memory access of generated programs and schedules is an event of the trace specification. '
            'Schedules and call arguments are sampled.')
T['C18'] = ('Quint state machine of nucleus-model enquiries with exact densities, potentials and radii; behaviours replayed in the library', 'exploration',
            'Exact values to many digits at generated radii and parameters of all five models, estimators included (both outcomes of the Fermi estimator). Sampled, not exhaustive.')
T['C19'] = ('Quint state machine of the Fortran interface; behaviours replayed through both interfaces', 'exploration',
            'Every Fortran-named entry point; bit identity with the C routine on generated arguments, memory balance and untouched inputs observed. Sampled arguments.')
T['C20'] = ('Quint specification of the documented domain enumerates calls at its limits; behaviours replayed in sanitizer builds (ASan, UBSan, MSan)', 'exploration',
            'Every routine at the corner angular momenta that the cost bound of the specification admits; calls that would take minutes each are left to the thorough tier or skipped.')
NA = {}
try:
    from manifest_extra import extra
    extra(T, NA)
except ImportError:
    pass
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    if p not in T and p not in NA:
        NA[p] = 'check under construction'
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'checks': [{'property': p, 'quick_cmd': 'python3 tools/check.py %s quick' % p, 'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
                 'evidence_file': 'evidence/%s.json' % p, 'technique': T[p][0], 'level': T[p][1], 'level_note': T[p][2]} for p in props if p in T],
     'not_applicable': [{'property': p, 'reason': NA[p]} for p in props if p in NA],
     'notes': 'One specification in Quint (spec/*.qnt) plus TLA+ modules for the concurrent parts; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
