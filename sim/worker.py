# One simulation worker process (Jython).  argv[1]: a JSON job description.
import json
import os
import sys
import time as _time

_clock = _time.time          # the real clock, used for budgets only

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def run_seed(base, prop_id, index):
    # a fixed, collision-poor mapping (VERIF_SEED, property, index) -> seed
    p = int(''.join(c for c in prop_id if c.isdigit()))
    return (base * 1000003 + p) * 100000007 + index


def main():
    job = json.load(open(sys.argv[1]))
    import boot
    boot.boot(job['scratch'])
    import core
    prop = boot.load_prop(job['prop'])
    out = {'runs': 0, 'nontrivial': 0, 'faults': {}, 'probes': {},
           'sim_time': 0.0, 'samples': [], 'violation': None,
           'harness': None, 'states': [], 'events': 0, 'steps': 0,
           'cases': []}
    t0 = _clock()
    states = set()
    cases = set()

    def write():
        out['states'] = sorted(states)
        out['cases'] = sorted(cases)
        out['wall'] = _clock() - t0
        tmp = job['out'] + '.tmp'
        f = open(tmp, 'w')
        json.dump(out, f)
        f.close()
        os.rename(tmp, job['out'])

    hb = open(job['out'] + '.hb', 'w')

    def beat(i):
        hb.seek(0)
        hb.write('%-24d' % i)
        hb.flush()

    mode = job['mode']
    last = 0
    if mode == 'search':
        i = job['start']
        while i < job['end']:
            now = _clock()
            if now - t0 > job['deadline']:
                out['timed_out'] = True
                break
            if now - last > 0.5:
                beat(i)
                last = now
            seed = run_seed(job['base'], job['prop'], i)
            out['current'] = i
            sim, res = core.execute(prop, seed=seed)
            out['runs'] += 1
            out['events'] += sim.nevents
            out['steps'] += sim.steps
            out['sim_time'] += sim.now
            if sim.nontrivial:
                out['nontrivial'] += 1
                cases.add(int(res.digest[:12], 16))
            for k, v in sim.faults.iteritems():
                out['faults'][k] = out['faults'].get(k, 0) + v
            for k, v in sim.probes.iteritems():
                out['probes'][k] = out['probes'].get(k, 0) + v
            if len(states) < 300000:
                states.update(sim.states)
            if sim.nontrivial and len(out['samples']) < 2:
                out['samples'].append({
                    'seed': seed, 'tape_len': len(sim.tape),
                    'trace': [e.decode('utf-8', 'replace')[:300]
                              for e in sim.events[:40]]})
            if res.harness:
                out['harness'] = {'index': i, 'seed': seed,
                                  'tape': sim.tape, 'error': res.harness}
                break
            if res.violation:
                beat(i)
                out['violation'] = {
                    'index': i, 'seed': seed, 'oracle': res.violation[0],
                    'message': res.violation[1].decode('utf-8', 'replace'),
                    'tape': sim.tape, 'digest': res.digest}
                write()
                tape, n = core.minimise(
                    prop, sim.tape, res.violation[0], job['shrink'], _clock)
                s2, r2 = core.execute(prop, tape=tape)
                if r2.violation and r2.violation[0] == res.violation[0]:
                    out['violation'].update({
                        'min_tape': tape, 'min_digest': r2.digest,
                        'min_message': r2.violation[1].decode(
                            'utf-8', 'replace'),
                        'trace': [e.decode('utf-8', 'replace')[:2000]
                                  for e in s2.events],
                        'shrink_runs': n})
                break
            i += job['stride']
    elif mode == 'tape':
        # exact replay of one tape (or one seed) in this fresh process
        hung = None
        if job.get('trace_budget'):
            hung = boot.arm_trace_budget(job['trace_budget'])
        if job.get('prelude') is not None:
            a, b, st = job['prelude']
            for i in range(a, b, st):
                core.execute(prop, seed=run_seed(job['base'], job['prop'], i))
        if job.get('tape') is not None:
            sim, res = core.execute(prop, tape=job['tape'])
        else:
            sim, res = core.execute(prop, seed=job['seed'])
        out['runs'] = 1
        out['digest'] = res.digest
        out['trace'] = [e.decode('utf-8', 'replace')[:2000]
                        for e in sim.events]
        out['faults'] = sim.faults
        out['tape'] = sim.tape
        out['harness'] = res.harness
        if res.violation:
            out['violation'] = {
                'oracle': res.violation[0],
                'message': res.violation[1].decode('utf-8', 'replace'),
                'digest': res.digest}
    elif mode == 'digest':
        ds = []
        for i in range(job['start'], job['end'], job['stride']):
            seed = run_seed(job['base'], job['prop'], i)
            sim, res = core.execute(prop, seed=seed)
            ds.append([i, res.digest, len(sim.tape), bool(res.violation),
                       res.harness])
            beat(i)
        out['digests'] = ds
    write()
    sys.stdout.flush()
    # leave no parked thread behind to keep the JVM alive
    from java.lang import Runtime
    Runtime.getRuntime().halt(0)


if __name__ == '__main__':
    main()
