import random
from lib import *

def C04():
    c = Check('C04', 'model_checking')
    c.model('merge table is a sound three-way merge', model_check('MergeMC', 'CONSTANT MaxContent = 4\nSPECIFICATION Spec\nINVARIANT Sound\nINVARIANT Total\n', workers=2))
    scheds, _ = generate('MergeGen', 'CONSTANT NP = 2\nSPECIFICATION Spec\n')
    s3, _ = generate('MergeGen', 'CONSTANT NP = 3\nSPECIFICATION Spec\n', timeout=300)
    rnd = random.Random(SEED)
    allc = scheds * 5 + (rnd.sample(s3, 4000) if QUICK else s3 * 5)
    jobs = [{'id': i, 'names': i % 5, 'combos': allc[i:i + 125]} for i in range(0, len(allc), 125)]
    # NAMES index must differ for the repeated lists, so rotate by the repetition
    traces = run_jobs('d_merge', jobs)
    c.conformance('status maps', 'MergeTrace', traces, None, combos=len(allc))
    return c
