"""Writes MANIFEST.json.   usage: python3 mkmanifest.py"""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
MODEL = 'bounded model checking by exhaustive execution of the real program: every case of finite input/option/design ' \
        'spaces is executed and compared with an executable reference model of the documented behaviour'
REL = 'bounded model checking by exhaustive execution of the real program: relations between executions are checked on ' \
      'every element of finite input/option spaces'
HIST = 'explicit-state search over operation histories of the real program (all sequences up to a depth), with ' \
       'reference model'
CHECKS = {
    'C01': (MODEL, 'All texts up to a length over an alphabet of character classes, all designs of a structural family; '
                   'larger texts only up to the stated lengths.'),
    'C02': (MODEL, 'Display width is taken from libunistring, which is trusted.'),
    'C03': (MODEL, 'All combinations of shapes, elasticity and sizes up to the stated bounds, plus all shipped designs.'),
    'C04': (MODEL, 'All sizes and paddings in small ranges x structural design family.'),
    'C05': (MODEL, 'All alignment strings up to three components; either rounding of a centre is accepted.'),
    'C06': (MODEL, 'All small multi-line indentations x modes from both sources.'),
    'C07': (MODEL, 'All tab stops 1..16 x all lines of blanks, tabs, text up to a length.'),
    'C08': (MODEL, 'All mixtures of line ends and trailing white space for texts of few lines.'),
    'C09': (MODEL, 'All lists of up to two (partly three) rules of a rule set; PCRE2 semantics are modelled with a '
                   'reference matcher for the rules used.'),
    'C10': (REL, 'All token strings with escape sequences up to a length; every final character of each sequence type.'),
    'C11': (REL, 'Encodings offered by libunistring/iconv of this system; locales limited to C and C.UTF-8.'),
    'C12': (HIST, 'Texts over small alphabets; excludes texts which the frame can be confused with.'),
    'C13': (HIST, 'Configurations of up to several designs with disjoint frame characters, all texts of a bounded set.'),
    'C14': (HIST, 'All edit sequences up to a depth on boxes of a design family, compared with a freshly drawn box.'),
    'C15': (MODEL, 'All texts of a bounded set without frame characters, all blank line patterns x kill options.'),
    'C16': (MODEL, 'All shape geometry/elastic combinations in a bounded range, all single-token edits of a config file.'),
    'C17': (MODEL, 'All parent graphs of up to three files (four in part) and name/alias placements.'),
    'C18': (MODEL, 'All subsets of existing candidate locations; absolute paths are redirected into a scratch directory.'),
    'C19': (MODEL, 'All permitted delimiter/escape pairs and all short strings over the critical characters.'),
    'C20': (MODEL, 'All small tag assignments x all queries of up to three terms.'),
    'C21': (MODEL, 'All short argument strings over the option alphabets, all ordered pairs of options.'),
    'C22': (REL, 'All short strings as ad-hoc designs x texts x operations.'),
    'C23': (REL, 'All combinations of input/output designators x operations x failures.'),
    'C24': ('stateless model checking of the real program under a fault injector: every division of input and output into chunks and an error at every byte '
            'position, on the real program', 'Faults are injected at the stdio layer of the real program.'),
    'C25': ('bounded model checking by exhaustive execution of the real program on finite spaces of texts, configurations '
            'and command lines, with AddressSanitizer and UBSan as monitors, and comparison of two builds which fill '
            'indeterminate memory differently',
            'Monitors only what the sanitizers and the two fillings can show; failure of malloc is not explored.'),
    'C26': (MODEL, 'Work is measured in executed control flow edges (deterministic); feasibility of all elastic length combinations '
            'in a bounded range is decided by a model. Work inside library calls is not counted.'),
}
LEVELS = {}


def main():
    done = [p for p in CHECKS if os.path.exists(os.path.join(HERE, 'mc/props/%s.py' % p.lower()))]
    m = {
        'version': 1,
        'setup_cmd': 'for k in plain asan zero pattern steps; do mc/build.sh build $k || exit 1; done',
        'checks': [{'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                    'evidence_file': 'evidence/%s.json' % p, 'technique': CHECKS[p][0],
                    'level': LEVELS.get(p, 'model_checking'), 'level_note': CHECKS[p][1]} for p in done],
        'not_applicable': [{'property': p, 'reason': 'check under construction'} for p in CHECKS if p not in done],
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
