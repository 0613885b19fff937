"""coverage.py DIR [module...]: statements of functions the proofs entered that no path executed.

DIR holds what runs with PYVC_COV=DIR wrote (file line, one per line)."""
import sys, os, re, collections

d = sys.argv[1]
only = sys.argv[2:]
hit = collections.defaultdict(set)
for f in os.listdir(d):
    for l in open(os.path.join(d, f)):
        a, b = l.rsplit(' ', 1)
        hit[a].add(int(b))
for f in sorted(hit):
    if '/contracts/' in f or not os.path.exists(f) or (only and not any(o in f for o in only)):
        continue
    src = open(f, newline='').read().splitlines()
    # functions by indentation
    out = []
    n = 0
    while n < len(src):
        m = re.match(r'(\s*)def (\w+)', src[n])
        if m:
            ind = m.group(1)
            e = n + 1
            while e < len(src) and (not src[e].strip() or src[e].startswith(ind + '\t') or src[e].startswith(ind + ' ') or src[e].lstrip().startswith('#')):
                e += 1
            lines = [i + 1 for i in range(n + 1, e)]
            h = [i for i in lines if i in hit[f]]
            if h:
                doc = False
                miss = []
                for i in lines:
                    t = src[i - 1].strip()
                    if t.count('"""') == 1:
                        doc = not doc
                        continue
                    if doc or not t or t.startswith('#') or t.startswith('"""') or re.match(r'(else|try|finally|except\b.*|elif\b.*):', t) or i in hit[f] or t.startswith('def ') or t.startswith('class ') or t in ('pass',) or t[0] in ')]},"\'':
                        continue
                    miss.append(i)
                if miss:
                    out.append((n + 1, m.group(2), miss))
        n += 1
    if out:
        print('== ' + f)
        for a, name, miss in out:
            print('  %s (%d)' % (name, a))
            for i in miss:
                print('    %d: %s' % (i, src[i - 1].strip()[:110]))
