"""writes DESIGN.md from design/*.md, the property table and the results of the planted bugs"""
import glob
import importlib
import json
import os
import sys
import mk
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import symx  # noqa
HOW = {
 'C01': 'WC is built from symbolic binary64 values in each notation; `dict`, `dict2values` and the round trip are compared bit for bit (z3 FP theory).',
 'C02': 'dump/load executed with symbolic numbers in the documents (numbers travel through the text as tokens); structure compared leaf by leaf.',
 'C03': 'Harness conversion functions return symbolic values; the solver decides which values vanish; routes present/absent are symbolic.',
 'C04': 'Registrations, sectors, names and the outcome of latex (stand-in executable in a scratch directory) are symbolic Booleans; verdict compared with the definition.',
 'C05': 'Histories of operations are symbolic choices; the registry is compared with a dictionary model after each step.',
 'C06': 'Sector subsets and query orders are symbolic Booleans; compared with dictionary union.',
 'C07': 'Every array entry symbolic; symmetry relations generated from the operator\'s permutation group.',
 'C08': 'Every array entry symbolic; positions compared one by one.',
 'C09': 'Arrays and matrices symbolic; compared with the index-by-index definition (equations of degree up to 5).',
 'C10': 'Coefficients and CKM matrix symbolic; compared with rotation of the doublet indices on the symmetrised tensor; round trips at concrete unitary CKM points.',
 'C11': 'Coefficients and CKM matrix symbolic; SVD uninterpreted, applied to the symmetrised matrix by the reference.',
 'C12': 'Laws: zero to zero, missing = zero, composed = stepwise, defaults fill in, scale independent.',
 'C13': 'All 2499 coefficients symbolic at once; each of the JMS coefficients compared with an independent implementation of the published matching.',
 'C14': 'Coefficients symbolic; projection compared with the set of operators made of the remaining quarks.',
 'C15': 'All JMS coefficients and parameters symbolic; compared with `refs.jms_to_bern`.',
 'C16': 'As C15 with `refs.jms_to_flavio`; commuting triangle with Bern.',
 'C17': 'As C15 with `refs.bern_to_flavio`; two round trips.',
 'C18': 'As C15 with `refs.jms_to_eos`.',
 'C19': 'As C15 with `refs.jms_to_formflavor`.',
 'C20': 'All 906 FlavorKit and all JMS coefficients symbolic; correspondence by operator, permutation and conjugation rules; round trip; composition.',
 'C21': 'T(ra+b) = rT(a)+T(b) and missing = zero with everything symbolic, for each of the 14 translators.',
 'C22': 'rundec uninterpreted (arguments and thresholds recorded): the solver compares the whole chain of calls; branches on scale explored; cache histories.',
 'C23': 'SM and NP values symbolic; sum compared; files of parameters with symbolic numbers in a scratch directory.',
 'C24': 'All coefficients and the cutoff symbolic; number text is a token for the symbolic number; every card entry compared with the meaning of its SMEFTsim name.',
 'C25': 'Entry points run in process in a scratch directory; defects, sources, sinks, options symbolic; numbers in documents symbolic.',
 'C26': 'Two independent instances of the package; conversion after a symbolic choice of history compared with the first call of the fresh instance.',
 'C28': 'The repository ships no definitions in this checkout, so the package is loaded from a scratch directory whose folder of definitions holds a symbolic choice of files listed in a symbolic order; the registry is compared with the documents.',
 'C27': 'Files and bases printed with symbolic numbers (tokens in the text) and symbolic choices of definitions; every table row parsed back and compared.',
}


def main():
    out = [open(HERE + '/design/head.md').read()]
    for p in mk.P:
        m = importlib.import_module('props.' + p['id'].lower())
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append('Decided by: %s\n' % HOW.get(p['id'], ''))
        out.append('Bounds: %s\n' % m.BOUNDS)
        out.append('Assumes: %s.\n' % '; '.join(m.ASSUMPTIONS))
        out.append('Beyond the tests: %s\n' % p['why'])
    fixed = json.load(open(HERE + '/known_findings.json'))['fixed']
    out.append(open(HERE + '/design/tail.md').read().replace('FIXED', '\n'.join('* ' + f[7:] for f in fixed)))
    res = {}
    if os.path.exists(HERE + '/design/seeded_results.json'):
        res = json.load(open(HERE + '/design/seeded_results.json'))
    out.append('| change | property | needs | result |\n|---|---|---|---|')
    for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
        n = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        out.append('| %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'] + ' Needs: ' + m['needs'], res.get(n, '?')))
    open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')


main()
