"""K01: keys and passwords against spec/Keys.tla"""
import random
from lib import *
FAMILIES = [['secret', 'Secret', 'secre', 'secret ', 'secrets', ' secret'], ['', ' ', 'a', '\0', 'none', 'n'], ['p\u00e4ss', 'pa\u0308ss', 'p\u00e4s', 'pass', 'p\u00c4ss', 'p?ss'],
            ['x' * 64, 'x' * 65, 'x' * 63, 'x' * 63 + 'y', 'y' + 'x' * 63, 'X' * 64], ['\u5bc6\u7801', '\u5bc6\u7801\u5bc6', '\u5bc6', '\u5bc7\u7801', '\U0001f600', '??'],
            ['k' * 300, 'k' * 299 + 'l', 'k' * 256, 'k' * 255, 'k' * 128, 'k' * 301], ['pass word\t1', 'password1', 'pass word 1', 'pass', 'pass word', 'pass word\t'], ['abcd1234', 'abcd1235', '1234abcd', 'abcdabcd', 'abcd', '4321dcba'],
            ['tail\0one', 'tail\0two', 'tail', 'tail\0', 'tail\0on', '\0tail'], ['q', 'qq', 'Q', '', 'q\n', 'q\r'], ['"\'\\', '"\'', '\\', "'", '%s', '$(x)']]
def K01():
    c = Check('K01', 'exploration'); rnd = random.Random(SEED + 400)
    c.model('design: 2 keys, 2 passwords, a thief', model_check('KeysMC', 'CONSTANTS Passwords = {"p", "q", ""}\n Users = {"u", "v"}\n MaxPrompt = %d\nSPECIFICATION Spec\nINVARIANTS OnlyWithPassword OwnerCan TypeOK\n' % (2 if QUICK else 4)))
    sch, r = generate('KeysGen', 'CONSTANT P = 3\nSPECIFICATION Spec\n')
    js = []
    for k in range(1 if QUICK else 6):
        for s in sch:
            if s['given'] or rnd.random() < .5 or not QUICK:
                f = rnd.choice(FAMILIES); names = rnd.sample(f, 3)
                js.append(dict(s, names=names, tries=[1, 2, 3]))
    for f in FAMILIES:                                    # every password of a family against every other
        for g in range(len(f)):
            if QUICK and g > 2: continue
            js.append(dict(answers=['y'], given=[g + 1, g + 1], names=f, tries=list(range(1, len(f) + 1))))
    for k, j in enumerate(js):
        j['id'] = k
        if k % 3 == 0 or not j['given']:
            right = j['given'][-1] if j['given'] else 1
            wrong = [x for x in j['tries'] if x != right]
            j['use'] = [[rnd.choice(wrong), right], [rnd.choice(wrong), right]]
    tr = run_jobs('d_keys', js)
    c.conformance('lives of keys', 'KeysTrace', tr, None, dialogues=len(sch), passwords=sum(len(f) for f in FAMILIES))
    return c
