"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
 'C01': 'runtime monitor: estimating-equation residual oracle and independent reference iteration over hostile data',
 'C02': 'runtime monitor: metamorphic relations between recorded pairs of fits',
 'C03': 'runtime monitor: likelihood stationarity, perturbation and trace-monotonicity oracles',
 'C04': 'runtime monitor: estimating-equation residual with independently computed constants',
 'C05': 'runtime monitor: metamorphic relations between recorded pairs of fits',
 'C06': 'runtime monitor: fault injection (outliers) with bounded-influence oracle, large-sample consistency',
 'C07': 'runtime monitor: constraint assertions on every returned shape over hostile scales',
 'C08': 'runtime monitor: differential execution of the two solvers with criterion recomputed',
 'C09': 'runtime monitor: offline checker of traces of iterates and log records',
 'C10': 'runtime monitor: round-trip and algebra oracles with boundary-shape rejection',
 'C11': 'runtime monitor: differential execution against closed forms and scipy',
 'C12': 'runtime monitor: goodness-of-fit oracles on recorded samples, generator state monitor',
 'C13': 'runtime monitor: differential execution of backends, finite-difference gradient oracle',
 'C14': 'runtime monitor: trace of costs, stationarity and invariance oracles',
 'C15': 'runtime monitor: differential likelihood, finite-difference gradient and perturbation oracles',
 'C16': 'runtime monitor: geometric identity oracles on executed manifold operations',
 'C17': 'runtime monitor: geometric identity oracles on executed manifold operations',
 'C18': 'runtime monitor: geometric identity oracles on executed manifold operations',
 'C19': 'runtime monitor: geometric identity oracles on executed manifold operations',
 'C20': 'runtime monitor: random histories of operations against an executable list model',
 'C21': 'runtime monitor: controlled thread interleavings and recorded call events against sequential references',
 'C22': 'runtime monitor: buffer, aliasing and generator-state monitors over histories of fits and copies',
 'C23': 'runtime monitor: recorded calls of direction and retraction against a reference recursion',
 'C24': 'runtime monitor: spectral-definition oracle and differential backends',
 'C25': 'runtime monitor: structural and goodness-of-fit oracles on generated data',
 'C26': 'runtime monitor: random programs with injected exceptions against private generators',
 'C27': 'runtime monitor: results recomputed from the fitted state, differential with scikit-learn',
 'C28': 'runtime monitor: fault injection in inputs with state comparison before and after',
 'C30': 'runtime monitor: paired executions with an argument left out and with its documented value',
 'C31': 'runtime monitor: argument snapshots, metamorphic repetition after other calls, concurrent calls from threads with a short switch interval',
 'C29': 'runtime monitor: offline checker of parsed progress reports, logs and printed text against the observed run',
}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf8') as f:
        ids = [json.loads(line)['id'] for line in f]
    checks = []
    for i in ids:
        checks.append({
            'property': i,
            'quick_cmd': f'bash run.sh {i} --tier quick',
            'thorough_cmd': f'bash run.sh {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': TECH[i],
            'level': 'exploration',
            'level_note':
                'Held on every execution the monitors observed (counts, '
                'distinct situations and largest error/tolerance ratios in '
                'the evidence file); nothing is claimed about inputs outside '
                'the generated families listed in DESIGN.md. Trusts numpy, '
                'scipy and scikit-learn as references, and the oracles in '
                'rv/props.'})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
         'not_applicable': [],
         'notes': 'No hooks in /repo: the code is pure Python and is observed '
                  'at its public boundary (and by callables, loggers and '
                  'backends handed to it). Checks import /repo\'s working '
                  'tree directly, compiled afresh on every run.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
