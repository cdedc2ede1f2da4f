"""C03: bounds bracket the optimum and only tighten."""
import traces
from checks import runs

RULE = ('A case is one generated instance run with six strategy '
        'combinations; at every stored iteration the bounds, incumbent and '
        'log row are judged against an independent optimum. Non-trivial: a '
        'run of the case refined its partition.')
NEED = {'bound_pairs_checked': 300, 'incumbents_checked': 200,
        'log_rows_checked': 200, 'splits': 100}


def cases(tier, seed):
    return runs.make_cases(tier, seed, 3, 420, 5000,
                           sloppy=0.15)


def run(case, rec):
    def judge(r, truth, opt):
        traces.bounds(rec, r, truth, opt)
        for e in r.of('info'):
            rec.state(case['seed'], round(e['vLB'], 6), round(e['vUB'], 6))
    runs.drive(case, rec, judge)
