#!/usr/bin/env python3
"""Decide one property:  run.py <property> [quick|thorough]      exit 0 held, 1 violated, 2 no answer
Replay a counterexample: run.py <property> replay <file>

Builds harness/<property>.cpp against /repo's current headers in a scratch folder, lets the harness
enumerate all executions of its scenarios, writes evidence/<property>.json and removes the scratch folder."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('QM_REPO', '/repo')
INC = ['-I' + REPO + '/multirotor_simulator', '-I' + REPO + '/pid_controller/include',
       '-I/usr/include/eigen3', '-I' + HERE + '/harness']
BASE = ['g++', '-std=c++17', '-O2', '-w', '-DNDEBUG', '-pipe']
SAN = ['g++', '-std=c++17', '-O1', '-g1', '-w', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=all', '-pipe']
FLAGS = {'C25': SAN, 'C32': SAN}
# Properties that are violated when supported uses of the library stop compiling
COMPILE_MATTERS = {'C23', 'C25', 'C32'}

PROBE = '''#include <multirotor_simulator.hpp>
#include <pid_controller/pid.hpp>
#include <pid_controller/pid_1d.hpp>
int main() {
  multirotor::SimulatorParams<double, 4> p;
  multirotor::Simulator<double, 4> s(p);
  s.arm(); s.update_controller(0.01); s.update_dynamics(0.01); s.update_imu(0.01); s.update_inertial_odometry(0.01);
  pid_controller::PID<double, 3> a; pid_1d_controller::PID<double> b;
  a.compute_control(0.1, Eigen::Vector3d::Zero()); b.compute_control(0.1, 1.0);
  return s.get_state().kinematics.position.x() > 1e9;
}
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def build(prop, src, scratch):
    exe = os.path.join(scratch, prop.lower())
    r = sh(FLAGS.get(prop, BASE) + INC + [src, '-o', exe])
    return (exe, r.stdout) if r.returncode == 0 else (None, r.stdout)


def child_env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'exitcode=3:detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=3'
    return e


def findings():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    src = os.path.join(HERE, 'harness', prop.lower() + '.cpp')
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    evfile = os.path.join(evdir, prop + '.json')
    replay_file = os.path.join(evdir, prop + '.replay.txt')
    seed = int(re.sub(r'\D', '', os.environ.get('VERIF_SEED', '1')) or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='qm_' + prop + '_')
    try:
        exe, log = build(prop, src, scratch)
        if tier == 'replay':
            return replay(prop, exe, log, sys.argv[3], scratch)
        for f in (evfile, replay_file):
            if os.path.exists(f):
                os.remove(f)
        if exe is None:
            with open(os.path.join(scratch, 'probe.cpp'), 'w') as f:
                f.write(PROBE)
            ok = sh(BASE + ['-fsyntax-only'] + INC + [os.path.join(scratch, 'probe.cpp')]).returncode == 0
            sys.stdout.write(log[-3000:] + '\n')
            if ok and prop in COMPILE_MATTERS:
                with open(replay_file, 'w') as f:
                    f.write('message: a supported use of the library no longer compiles\n' + log[-20000:])
                write(evfile, prop, tier, seed, {'traces': 0, 'transitions': 0, 'states': 0, 'oracle_comparisons': 0,
                      'scenarios': [], 'samples': ['compilation of ' + src + ' failed'], 'known': {}}, t0, 1)
                print('VIOLATION property=%s replay=%s' % (prop, replay_file))
                return 1
            print('ERROR: the harness of %s does not compile against %s' % (prop, REPO))
            return 2
        tb = time.time() - t0
        out = os.path.join(scratch, 'result.json')
        r = sh([exe, '--out', out, '--dir', scratch, '--tier', tier, '--workers', os.environ.get('QM_WORKERS', '8')],
               env=child_env())
        if r.returncode not in (0, 1) or not os.path.exists(out):
            sys.stdout.write(r.stdout[-3000:] + '\n')
            print('ERROR: the harness of %s ended with %d' % (prop, r.returncode))
            return 2
        with open(out) as f:
            res = json.load(f)
        res['build_s'] = round(tb, 2)
        if r.returncode == 1:
            viol = []
            for w in sorted(os.listdir(scratch)):
                if w.endswith('.viol'):
                    with open(os.path.join(scratch, w)) as f:
                        viol.append(f.read())
            viol.sort(key=lambda s: len(re.search(r'^choices:.*$', s, re.M).group(0)) if 'choices:' in s else 1 << 30)
            best = viol[0] if viol else 'message: no details\n'
            with open(replay_file, 'w') as f:
                f.write(best + '\n--- output of the harness\n' + r.stdout[-20000:])
            write(evfile, prop, tier, seed, res, t0, len(viol) or 1)
            sys.stdout.write(best[:2500] + '\n')
            print('VIOLATION property=%s replay=%s' % (prop, replay_file))
            return 1
        code = 0
        for f in findings()['known']:
            if f['property'] == prop and res['known'].get(f['id'], 0) > 0:
                print('KNOWN-FINDING: property=%s %s (met %d times)' % (prop, f['what'], res['known'][f['id']]))
        listed = {f['id'] for f in findings()['known'] if f['property'] == prop}
        for k in res['known']:
            if k not in listed:
                with open(replay_file, 'w') as f:
                    f.write('message: deviation %s is not a listed known finding\n' % k)
                print('VIOLATION property=%s replay=%s' % (prop, replay_file))
                code = 1
        write(evfile, prop, tier, seed, res, t0, 1 if code else 0)
        print('%s %s: %d executions, %d transitions, %d states, %d comparisons, %.1f s (build %.1f s)' % (
            prop, tier, res['traces'], res['transitions'], res['states'], res['oracle_comparisons'], time.time() - t0, tb))
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write(path, prop, tier, seed, res, t0, violations):
    cov = {
        'states': res['states'], 'transitions': res['transitions'], 'traces_validated_against_impl': res['traces'],
        'oracle_comparisons': res['oracle_comparisons'], 'exhaustive': violations == 0,
        'scenarios': res['scenarios'], 'samples': [s[:1500] for s in res['samples'][:8]],
        'worst_error_over_tolerance': res.get('worst_error_over_tolerance'),
        'state_set_capped': res.get('state_set_capped'), 'known_findings_met': res.get('known'),
        'build_s': res.get('build_s'),
        'rule': 'every decision sequence of every scenario within its bound was executed on the real code, from fresh '
                'objects; states = distinct fingerprints of observed values, transitions = calls executed beyond the '
                'prefix shared with the previous execution, traces = complete executions judged by the oracle',
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'wall_s': round(time.time() - t0, 3), 'violations': violations,
          'assumptions': ['inputs are drawn from the finite alphabets of the scenarios', 'g++ on x86-64, IEEE-754',
                          'the reference model in harness/ref.hpp is right']}
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def replay(prop, exe, log, path, scratch):
    if exe is None:
        print(log[-3000:])
        return 2
    text = open(path).read()
    scen = re.search(r'^scenario: (.*)$', text, re.M).group(1)
    choices = re.search(r'^choices:(.*)$', text, re.M).group(1).split()
    out = os.path.join(scratch, 'replay.txt')
    r = sh([exe, '--out', out, '--tier', 'quick', '--replay', scen] + choices, env=child_env())
    if r.returncode == 0 and not (os.path.exists(out) and os.path.getsize(out)):
        r = sh([exe, '--out', out, '--tier', 'thorough', '--replay', scen] + choices, env=child_env())
    sys.stdout.write(r.stdout[-5000:])
    if os.path.exists(out):
        sys.stdout.write(open(out).read())
    return 1 if r.returncode else 0


if __name__ == '__main__':
    sys.exit(main())
