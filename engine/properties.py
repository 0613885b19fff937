"""The list of properties: writes properties.jsonl, MANIFEST.json and props.json.
Run:  python3 engine/properties.py"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PROPS = []
NA = []
ISO = 'pyslet/pyslet/iso8601.py'
TECH = 'contract-based deductive verification: contracts on the real functions, verification conditions generated from the AST Jython parses from /repo on every run, discharged by z3/cvc5'


def prop(id, title, statement, over, qtext, why, files, mech, module, level='proof', note='', state=(), observe=(), assumptions=(), trusted=(), explanation=None, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, module=module, level=level,
                      note=note, state=list(state), observe=list(observe), assumptions=list(assumptions), trusted=list(trusted), explanation=explanation, **kw))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason, state=[], observe=[]))


ENGINE = ('Trusts the verification-condition generator (engine/, differential-tested against Jython), z3/cvc5 and Jython\'s parser; '
          'integers are mathematical. ')

exec(open(os.path.join(HERE, 'proplist.py')).read())


def line(p):
    return {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']], 'observe_at': p['observe'], 'hook_needed': None}}


def main():
    allp = sorted(PROPS + NA, key=lambda p: p['id'])
    for p in allp:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in allp:
            f.write(json.dumps(line(p)) + '\n')
    json.dump({p['id']: {k: p[k] for k in ('module', 'level', 'assumptions', 'trusted', 'explanation', 'limit', 'limit_thorough') if p.get(k)} for p in PROPS},
              open(os.path.join(HERE, 'props.json'), 'w'), indent=1)
    m = {'version': 1, 'setup_cmd': 'sh engine/setup.sh',
         'hooks': {'guard': 'PYVC_HOOKS', 'enable': 'no hooks: nothing in /repo is instrumented', 'source_commits': []},
         'checks': [{'property': p['id'], 'quick_cmd': 'sh engine/check.sh %s quick' % p['id'], 'thorough_cmd': 'sh engine/check.sh %s thorough' % p['id'],
                     'technique': p.get('technique', TECH), 'level': p['level'], 'level_note': p['note'] + (' ' if p['note'] else '') + ENGINE} for p in PROPS],
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]}
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    design(allp)


def design(allp):
    s = open(os.path.join(HERE, 'design.in.md')).read()
    kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    t = []
    claimed = {p['id'] for p in PROPS}
    for p in allp:
        t.append('**%s %s.** ' % (p['id'], p['title']))
        if p['id'] in claimed:
            t[-1] += ('Contracts: `contracts/%s.py`, level *%s*. Over: %s. ' % (p['module'], p['level'], p['qtext']) +
                      'Code: ' + '; '.join('%s (%s)' % m for m in p['mech']) + '. Why tests cannot: ' + p['why'] + (' ' + p['note'] if p['note'] else '') + (' ' + p['design'] if p.get('design') else ''))
        else:
            t[-1] += 'Not claimed: ' + p['reason']
        t.append('')
    s = s.replace('@@PROPS@@', '\n'.join(t))
    s = s.replace('@@FIXED@@', '\n'.join('* ' + x for x in kf['fixed']))
    s = s.replace('@@KNOWN@@', '\n'.join('* %s, unit %s, obligation "%s": %s' % (k['property'], k['unit'], k['obligation'], k['what']) for k in kf['findings']))
    rows = []
    sd = os.path.join(VERIF, 'seeded')
    caught = {}
    cf = os.path.join(HERE, 'caught.json')
    if os.path.exists(cf):
        caught = json.load(open(cf))
    dirs = [(d, x) for x in (sd, sd + '-more') if os.path.isdir(x) for d in os.listdir(x)]
    for d, x in sorted(dirs):
        mf = os.path.join(x, d, 'meta.json')
        if os.path.exists(mf):
            m = json.load(open(mf))
            rows.append('* `%s` (%s): %s. %s' % (d, m['property'], m['what_it_breaks'].rstrip('.'), caught.get(d, 'not yet run')))
    s = s.replace('@@SEEDED@@', '\n'.join(rows))
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write(s)


if __name__ == '__main__':
    main()
