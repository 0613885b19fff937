import sys, os, json, tempfile, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
r = json.load(open(sys.argv[1]))
if not r.get('inputs'):
    print('this file names a failed obligation; it has no failing input')
    print(json.dumps(r, indent=1))
    sys.exit(1)
with tempfile.TemporaryDirectory() as d:
    json.dump({'replay': [{'unit': r['unit'], 'inputs': r['inputs'], 'choices': r.get('choices') or []}], 'search': []}, open(d + '/j', 'w'))
    env = dict(os.environ, JYTHONPATH='/repo/pyslet:' + os.path.join(os.path.dirname(HERE), 'contracts'))
    subprocess.check_call(['/opt/vp/runner/jython.sh', os.path.join(HERE, 'replay.py'), r['module'], d + '/j', d + '/o'], env=env)
    print(json.dumps(json.load(open(d + '/o'))['replay'][0], indent=1))
