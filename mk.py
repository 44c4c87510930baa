#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
T = 'symbolic execution of the repository source + z3 (all inputs within bounds); replay of counterexamples'
CL, CLI, UT, TS, TW, MI, MS = ('wcxf/classes.py', 'wcxf/cli.py', 'wcxf/util/smeftutil.py', 'wcxf/translators/smeft.py',
                              'wcxf/translators/wet.py', 'wcxf/matchers/__init__.py', 'wcxf/matchers/smeft.py')
TI, QCD, PAR = 'wcxf/translators/__init__.py', 'wcxf/util/qcd.py', 'wcxf/parameters.py'
NUM = 'Floating point arithmetic is treated as real arithmetic; external libraries (rundec, ckmutil) are uninterpreted functions of their arguments.'
FPN = 'Numbers are bit-exact binary64 terms; text forms of numbers stand for the number.'
P = []


def prop(id, title, st, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=st, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe))


prop('C01', 'Coefficient values and numbers convert into each other without loss',
     'The number of a coefficient in a Wilson coefficient file is exactly what the file states, whether given as a plain number, an integer, '
     'a numeral string or a Re/Im mapping with either or both parts. Turning numbers into file values and back is exact for every finite real or complex '
     'number, Python or numpy, and writes a Re/Im mapping exactly when the imaginary part is nonzero, a plain Python float otherwise. '
     'Scale strings and integers become floats, reading the numbers twice gives the same numbers and reading them never changes the stored values.',
     ['inputs'], 'all finite binary64 values of every part and of the scale, all notations',
     'Tests check a couple of literal values; signs, tiny, integer-valued or numpy numbers and partial mappings are not sampled.',
     [CL], [('value codec', 'classes.py WC._to_number, _to_complex_dict, dict2values, dict')], FPN)
prop('C02', 'Files survive writing and reading in both formats',
     'Writing a Wilson coefficient, basis or EFT object as JSON or YAML, to a string or to a stream, and loading it again from either reproduces every public '
     'attribute: names, scale, values, sectors, parent and metadata. The default is JSON, JSON output is valid JSON, YAML output is block style unless asked otherwise, options are passed on to '
     'the writer, format names are case insensitive and an unknown format is refused. Converting a document between the formats keeps its content, and internal caches are never written.',
     ['inputs', 'configurations'], 'all numbers in the documents, all combinations of format, source and sink',
     'Tests round-trip a single sample file per class with fixed numbers.',
     [CL, 'wcxf/converters/yamljson.py'], [('dump and load', 'classes.py WCxf.load, WCxf.dump, _load_yaml_json, _dump_json, _yaml_to_json, _json_to_yaml')], FPN)
prop('C03', 'Translating or matching a file applies exactly the registered conversion',
     'Translating a Wilson coefficient object to a basis, or matching it to an EFT and basis, calls exactly the conversion registered for that route once, with the '
     'decoded numbers, the scale and the caller\'s parameters, and returns a new object with the target EFT and basis, the same scale and exactly the nonzero '
     'coefficients the conversion produced. A missing route is a ValueError whatever else is registered, and errors of the conversion propagate. The original object and the parameters stay unchanged.',
     ['inputs', 'configurations', 'histories'], 'all values, all sets of registered routes within the bounds, repeated and chained calls',
     'Tests register one toy translator with fixed values.',
     [CL], [('conversion wrapper', 'classes.py WC.translate, WC.match, Translator, Matcher')], FPN)
prop('C04', 'Validation accepts exactly well-formed files and bases',
     'A Wilson coefficient file passes validation exactly if its EFT and basis are known and all its coefficients belong to that basis. A basis passes exactly if '
     'its EFT is known, its sectors are sectors of the EFT, no coefficient appears twice and the LaTeX of its operators compiles (where LaTeX can be run); LaTeX '
     'errors are reported with the message of the log. Validation does not change the file or basis and leaves no temporary files behind.',
     ['inputs', 'configurations', 'fault_sequences'], 'all sets of registered names and file contents within the bounds, all outcomes of the LaTeX run',
     'Tests cover one valid and one or two invalid files; LaTeX outcomes depend on the installation.',
     [CL], [('validation', 'classes.py WC.validate, Basis.validate, _testtex, Basis.all_wcs')], FPN)
prop('C05', 'The registries behave like dictionaries keyed by full identity',
     'EFTs, bases, translators and matchers are found under exactly the names they were last registered with, whatever was registered, replaced, deleted or cleared '
     'before in any of the four registries; unknown names raise KeyError (or AttributeError before the first registration). Known bases and known translators '
     'of an EFT or basis list exactly the registered ones. The registration decorators return the function unchanged.',
     ['histories'], 'all histories of register, replace, delete and clear operations within the bounds',
     'Tests look up a handful of names after one registration.',
     [CL], [('registry', 'classes.py NamedInstanceClass, EFT.known_bases, Basis.known_translators, translator, matcher')], FPN)
prop('C06', 'A child basis is its parent with sectors overridden',
     'A basis with a parent has the sectors of the parent, with the sectors it defines itself replacing the parent\'s. Defining a child never changes the parent, a '
     'sibling or what was already queried, and grandchildren inherit through both levels. A missing parent is a ValueError and leaves nothing registered.',
     ['inputs', 'histories', 'configurations'], 'all subsets of sectors for parent, child and grandchild, all orders of queries',
     'Tests load one child basis.',
     [CL], [('inheritance', 'classes.py Basis.__init__')], FPN)
prop('C07', 'Symmetrisation returns the symmetric tensor of the independent entries',
     'Symmetrising a set of SMEFT coefficient arrays keeps the independent (non-redundant) entries and determines all others from them by the symmetries of the '
     'operator (hermiticity, exchange of identical currents, Fierz, Majorana and baryon number violating relations), so that it is idempotent and the result has all '
     'these symmetries. Coefficients without redundancy are unchanged, absent coefficients stay absent, and filling up missing coefficients adds zeros of the '
     'right shape without touching those present.',
     ['inputs'], 'all complex coefficient arrays of all SMEFT operators',
     'Tests symmetrise random arrays for some operators.',
     [UT], [('symmetrisation', 'smeftutil.py symmetrize, symmetrize_2 to symmetrize_9, add_missing')], NUM)
prop('C08', 'Names with flavour indices and arrays are the same data',
     'Turning SMEFT coefficients by name into arrays puts every coefficient at the position its flavour indices state, counted from one, and zeros elsewhere; turning arrays into '
     'names lists every entry of every array under its name. The two directions are inverse to each other and neither changes its input. For a single operator the array built from '
     'the independent coefficients contains them at their positions, ignoring other operators.',
     ['inputs'], 'all coefficients of all operators, any subset present',
     'Tests round-trip a few operators.',
     [TS], [('conversion', 'translators/smeft.py arrays2wcxf, wcxf2arrays, smeft_toarray, smeft_fromarray')], NUM)
prop('C09', 'Flavour rotations transform every fermion field of every operator',
     'A flavour rotation multiplies each flavour index of each operator by the matrix of the field at this position, conjugated exactly at the barred fields, and '
     'leaves bosonic coefficients unchanged, for arbitrary complex 3x3 matrices. It does not change its input.',
     ['inputs'], 'all complex arrays and all complex 3x3 matrices',
     'No test compares rotations with arbitrary matrices entry by entry.',
     [UT], [('rotation', 'smeftutil.py flavor_rotation')], NUM)
prop('C10', 'Warsaw and up-aligned Warsaw differ by the CKM rotation of quark doublets',
     'Translating between the Warsaw basis (down-aligned) and the up-aligned Warsaw basis rotates exactly the quark doublets by the CKM matrix of the caller\'s '
     'parameters (defaults for those not given) and leaves everything else unchanged. Going there and back gives the original coefficients, and the result has exactly '
     'the independent coefficients of the target basis.',
     ['inputs', 'configurations'], 'all coefficients, all CKM parameters, any parameters given',
     'Tests round-trip one random point with default parameters.',
     [TS, TI], [('translation', 'translators/smeft.py warsaw_to_warsaw_up, warsaw_up_to_warsaw')], NUM)
prop('C11', 'Warsaw to mass basis: up-type rotation and neutrino mass diagonalisation',
     'Translating from the Warsaw to the mass basis rotates the left-handed index of the up-type Yukawa-like and dipole coefficients by the CKM matrix of the caller\'s parameters '
     '(defaults for those not given) and replaces the dimension-five coefficients by the diagonal matrix of singular values of the symmetric coefficient matrix. '
     'All other coefficients keep their values and missing coefficients count as zero.',
     ['inputs', 'configurations'], 'all coefficients, present or missing, all CKM parameters',
     'One test with one point.',
     [TS, TI], [('translation', 'translators/smeft.py warsaw_to_warsawmass')], NUM)
prop('C12', 'SMEFT to WET matching: Standard Model limit, missing is zero, composition',
     'Vanishing or missing SMEFT coefficients give vanishing WET coefficients for any parameters, leaving a coefficient out is the same as giving it as zero, and the '
     'parameters not given take their default values. Matching from the Warsaw basis onto any WET basis equals translating to the up-aligned basis, matching onto JMS and '
     'translating from there with the same scale and parameters. The tree-level result does not depend on the scale and the arguments are not modified.',
     ['inputs', 'configurations'], 'all coefficients within the stated groups, symbolic parameters and scale',
     'Tests match one random point with default parameters and look at a few coefficients.',
     [MI, MS], [('matching', 'matchers/__init__.py, matchers/smeft.py match_all')], NUM)
prop('C13', 'SMEFT to WET matching reproduces the published tree-level formulas',
     'Every coefficient of the JMS basis equals the published tree-level matching (including the modified Z and W couplings, the shifted electroweak inputs and the subtraction of '
     'the Standard Model part) of the up-aligned Warsaw coefficients, in the basis where down-type quarks are mass eigenstates, for the caller\'s parameters. Exactly the independent coefficients '
     'of the JMS basis are returned.',
     ['inputs', 'configurations'], 'all coefficients simultaneously, at several parameter points',
     'Tests compare a handful of coefficients at one point.',
     [MS, TW], [('formulas', 'matchers/smeft.py C, vT ... zdr, match_all_array'), ('rotation', 'translators/wet.py rotate_down')], NUM)
prop('C14', 'Matching to theories with fewer quarks keeps exactly the surviving operators',
     'Matching between the weak effective theories with five, four, three and two quark flavours returns every coefficient whose operator contains only the remaining quarks with '
     'unchanged value and drops all others, in each of the bases, for any scale and parameters.',
     ['inputs', 'configurations'], 'all coefficients of each basis, present or missing',
     'Tests check the number of coefficients for one point.',
     [MI], [('projection', 'matchers/__init__.py wet_wet4_*, wet4_wet3_*, wet3_wet2_jms')], NUM)
_J = 'all coefficients of the source basis simultaneously, symbolic scale and physical parameters (all, some or none given by the caller)'
_W = 'Tests compare a sample file, or just that something is returned.'
prop('C15', 'JMS to Bern follows the published basis change',
     'Every coefficient of the Bern basis is the published linear combination of the JMS coefficients, for all sectors and for five, four and three quark flavours, with '
     'normalisation by the caller\'s parameters (strong coupling and quark masses run to the scale). Redundant JMS entries are resolved by their symmetries and the output names are those of the Bern basis.',
     ['inputs', 'configurations'], _J, _W, [TW, TI], [('translation', 'translators/wet.py JMS_to_Bern and helpers')], NUM)
prop('C16', 'JMS to flavio follows the published basis change',
     'Every coefficient of the flavio basis is the published linear combination of the JMS coefficients, for all sectors and for five, four and three quark flavours, with '
     'normalisation by the caller\'s parameters (CKM elements, couplings and running quark masses at the scale). The output names are those of the flavio basis, and the detour through the Bern basis gives the same result.',
     ['inputs', 'configurations'], _J, _W, [TW, TI], [('translation', 'translators/wet.py JMS_to_flavio and helpers')], NUM)
prop('C17', 'Bern and flavio translations are correct and mutually inverse',
     'Every flavio coefficient is the published combination of Bern coefficients and vice versa, for five, four and three quark flavours and any parameters. Translating from flavio to Bern '
     'and back reproduces every flavio coefficient, and Bern to flavio and back every Bern coefficient of the sectors that flavio can express completely.',
     ['inputs', 'configurations'], _J, _W, [TW, TI], [('translation', 'translators/wet.py Bern_to_flavio, flavio_to_Bern')], NUM)
prop('C18', 'JMS to EOS follows the published basis change',
     'Every coefficient of the EOS basis is the published linear combination of the JMS coefficients, with normalisation by the caller\'s parameters. The output names are those of the EOS basis.',
     ['inputs', 'configurations'], _J, _W, [TW, TI], [('translation', 'translators/wet.py JMS_to_EOS and helpers')], NUM)
prop('C19', 'JMS to FormFlavor follows the published basis change',
     'Every coefficient of the FormFlavor basis is the published linear combination of the JMS coefficients, with normalisation by the caller\'s parameters. The output names are those of the FormFlavor basis.',
     ['inputs', 'configurations'], _J, _W, [TW, TI], [('translation', 'translators/wet.py JMS_to_FormFlavor and helpers')], NUM)
prop('C20', 'FlavorKit and JMS coefficients correspond to each other',
     'A FlavorKit coefficient becomes the JMS coefficient of the same operator, with the indices reordered, conjugated where the JMS basis lists the conjugate operator, and lepton dipoles '
     'rescaled by charge and lepton mass of the caller\'s parameters; the reverse translation is its inverse. Unknown FlavorKit names are refused with a ValueError, JMS coefficients without counterpart are left out, and FlavorKit to flavio equals going through JMS.',
     ['inputs', 'configurations'], 'all FlavorKit and JMS coefficients simultaneously, symbolic parameters and scale',
     'Tests translate one sample.', [TW, TI, 'wcxf/data/flavorkit_jms.json', 'wcxf/data/flavorkit_jms_conj.json'],
     [('translation', 'translators/wet.py FlavorKit_to_JMS, JMS_to_FlavorKit')], NUM)
prop('C21', 'WET translations are linear and treat missing coefficients as zero',
     'In every translation between bases of the weak effective theories (all flavour numbers) leaving out a coefficient is the same as giving it as zero, an empty input gives zeros, and the result is a real-linear function of '
     'the coefficients. The set of output names does not depend on which coefficients are given, and integer, real and complex inputs are treated alike.',
     ['inputs', 'configurations'], 'all coefficients, any of three groups missing, symbolic scale and parameters', _W,
     [TW, TI], [('translations', 'translators/wet.py; translators/__init__.py')], NUM)
prop('C22', 'QCD running is consistent, scale and flavour number checked',
     'Strong coupling and running b, c and s masses are run at three loops with thresholds crossed one after the other; at their defining scale and flavour number they return exactly the given input. '
     'Non-positive scales and flavour numbers outside the supported integers (3 to 6 for the coupling and the b mass, 3 to 5 for the c and s masses) are refused with a ValueError, always, also after equal-looking valid calls. Results never depend on earlier calls.',
     ['inputs', 'histories'], 'all scales, masses and couplings in physical ranges, all flavour numbers, short histories of calls',
     'Tests compare a few numbers.', [QCD], [('running', 'util/qcd.py alpha_s, m_b, m_c, m_s, _sane')], NUM)
prop('C23', 'EOS conversion adds new physics to the Standard Model values',
     'The EOS parameters are, for each Standard Model parameter, its central value plus the real or imaginary part of the corresponding coefficient (zero if missing), with the '
     'limits equal to the central value, names and order unchanged, and no input modified. Charged-current coefficients are accepted exactly if equal for electrons and muons. '
     'The Standard Model values are read from exactly the parameter files marked as relevant.',
     ['inputs', 'configurations'], 'all coefficients and Standard Model values, present or missing, all notations, file metadata variants',
     'One test converts one sample file.', ['wcxf/converters/eos.py'], [('conversion', 'converters/eos.py wcxf2eos, get_eos_np, get_sm_wcs')], NUM)
prop('C24', 'SMEFTsim cards contain each coefficient in the right entry and units',
     'In the SMEFTsim parameter card, for both model sets, each entry is the coefficient its SMEFTsim name denotes: times the squared cutoff scale for real ones, modulus times squared cutoff and phase '
     'for complex ones, zero if missing. Every entry is present exactly once, the cutoff entry is the given cutoff, and the fixed text differs between the input schemes exactly in the input parameters. The coefficients are not modified.',
     ['inputs', 'configurations'], 'all coefficients, cutoffs, model sets and input schemes',
     'Tests only check that a card is produced.', ['wcxf/converters/smeftsim.py', 'wcxf/converters/SMEFTsim_param_card_elements.py'],
     [('card', 'converters/smeftsim.py initialize_smeftsim_card, smeftsim_card_fill, smeftsim_card_text')], NUM)
prop('C25', 'Command line tools report failure and write what the library computes',
     'Each command line tool exits with status zero exactly if it did what was asked, and nonzero for unreadable or invalid input, unknown formats, types or routes, and unusable destinations. On success its output, '
     'on standard output or in the chosen file, is the library\'s result for the same input and options. "Validation successful" is printed exactly for valid files, and files outside the mass basis are converted to SMEFTsim only on request.',
     ['inputs', 'configurations', 'fault_sequences'], 'all combinations of sources, sinks, formats, options and input defects, all numbers in the documents',
     'Tests run a few successful conversions and never look at the exit status.', [CLI, 'wcxf/converters/yamljson.py'],
     [('entry points', 'cli.py wcxf_cli, eos, smeftsim and subcommands')], FPN)
prop('C26', 'Conversions have no side effects and do not depend on history',
     'No translation or matching changes the coefficients or parameters passed to it, the default parameters, the registered EFTs, bases and conversions or the symmetry tables. The result of a conversion equals '
     'that in a fresh process whatever conversions, with whatever coefficients, scales or parameters, ran or failed before, and modifying an earlier result has no effect on it.',
     ['histories', 'inputs', 'configurations'], 'every registered conversion after histories of up to five calls',
     'Tests run in a fixed order and never compare with a fresh process.', [TW, TS, MI, MS, TI, QCD, PAR],
     [('defaults copied before update', 'translators/wet.py get_parameters; translators/smeft.py; matchers/smeft.py'), ('cache', 'util/qcd.py lru_cache')], NUM)

prop('C27', 'Printed files and bases show every coefficient with its exact content',
     'The text and Markdown form of a Wilson coefficient file names its EFT and basis and states its scale and, for each coefficient exactly once, its name and its exact number. The printed basis lists, sector by '
     'sector, exactly its coefficients with their LaTeX and whether they are real or complex, with the description if there is one, also for inherited sectors and empty definitions. Printing changes nothing.',
     ['inputs', 'configurations'], 'every finite number in every notation; every mixture of definitions, metadata and inheritance of a small basis',
     'Tests only call the functions and never look at the text.', [CL],
     [('Markdown tables', 'classes.py WC._repr_markdown_, Basis._markdown_tables, __str__')], FPN)

prop('C28', 'Importing the package registers every shipped EFT and basis',
     'On import every EFT file (*.eft.json) and basis file (*.basis.json) in the package\'s bases folder and every child basis in its child folder is registered under the names stated in the file, with its full content, '
     'whichever files are present and in whatever order the folders are listed; other files are ignored. Child bases inherit from their shipped parents. The registered conversions do not depend on the files.',
     ['configurations', 'schedules'], 'all subsets of shipped files within the bounds, all sampled listing orders',
     'The tests run on one checkout with one directory order (here: an empty folder).', ['wcxf/__init__.py', CL],
     [('import of the bases', '__init__.py'), ('inheritance', 'classes.py Basis.__init__')], FPN)


def main():
    with open('properties.jsonl', 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
            assert len(p['title']) <= 80, p['title']
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [],
         'notes': 'Pure Python; checks read /repo directly (no build step, no hooks). python3 check.py re-executes itself under /opt/venv/bin/python.'}
    for p in P:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                            'technique': T, 'level': 'other',
                            'level_note': 'Bounded symbolic verification: the solver decides every obligation for all symbolic inputs; bounds are in the '
                                          'evidence file. ' + p['note']})
    with open('MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
