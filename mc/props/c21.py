"""C21: malformed or incomplete input never produces result files."""
import os

import numpy as np

import files
from core import HarnessError, Violation

ID = 'C21'
CHUNK = 4
STATES = 'distinct (damaged input file, contribution set, option form) runs'
FLAGS = ['-e', '-s', '-c', '-q', '-r', '-ec', '-sq', '-er', '-cr', '-sqr', '-ecr', '-eqr', '-qr', '-sc']
BOUNDS = {'quick': 'files of 1 and 3 isomers: truncation after every line, deletion / duplication / '
                   'blanking of every line, 47 corruptions of keys and values and 15 of atom lines in '
                   'every isomer (also of the later isomers of files of 12 and 120, and with 1 to 40 modes), missing / empty / binary / directory / unreadable input and 9 more of that kind; x 14 contribution sets; '
                   'with plotting and output prefix for one set; all 2-isomer combinations of '
                   'numbers of modes 1..4, 72 more up to 198, and one deviating isomer at any '
                   'place of a 5-isomer file',
          'thorough': 'files of 1..5 isomers, pairs of corruptions'}
ASSUMPTIONS = ['a corrupted value that no requested contribution needs may also be ignored, if the '
               'results are then correct', 'the number of modes of a single isomer is what its file says',
               'nan and inf are legal numbers in the file format']
NEED = {'e': {'E'}, 's': {'E', 'M'}, 'c': {'F'}, 'q': {'F'}, 'r': {'G'}}

# name: (property, replacement of the 'Key=value' text; None removes it)
KEYS = {
    'no energy': ('E', lambda f: ''), 'no multiplicity': ('M', lambda f: ''),
    'no frequencies': ('F', lambda f: ''),
    'energy text': ('E', lambda f: 'Energy=abc'), 'energy units': ('E', lambda f: 'Energy=-1.5eV'),
    'energy empty': ('E', lambda f: 'Energy=""'), 'energy bare': ('E', lambda f: 'Energy'),
    'energy yes': ('E', lambda f: 'Energy=T'), 'energy comma': ('E', lambda f: 'Energy=-1,5'),
    'energy vector': ('E', lambda f: 'Energy="-1.5 -2.0"'),
    'energy lower case': ('E', lambda f: f'energy={f["energy"]}'),
    'energy misspelled': ('E', lambda f: f'Enrgy={f["energy"]}'),
    'energy dots': ('E', lambda f: 'Energy=-1.5.2'),
    'multiplicity text': ('M', lambda f: 'Multiplicity=triplet'),
    'multiplicity empty': ('M', lambda f: 'Multiplicity=""'),
    'multiplicity bare': ('M', lambda f: 'Multiplicity'),
    'multiplicity yes': ('M', lambda f: 'Multiplicity=T'),
    'multiplicity vector': ('M', lambda f: 'Multiplicity="1 3"'),
    'multiplicity misspelled': ('M', lambda f: f'Multiplcity={f["mult"]}'),
    'frequencies text': ('F', lambda f: 'Frequencies="a b c"'),
    'one frequency text': ('F', lambda f: 'Frequencies="' + ' '.join(f['freq'][:-1] + ['x']) + '"'),
    'first frequency text': ('F', lambda f: 'Frequencies="' + ' '.join(['x'] + f['freq'][1:]) + '"'),
    'frequency stars': ('F', lambda f: 'Frequencies="' + ' '.join(f['freq'][:1] + ['*****'] + f['freq'][2:])
                        + '"'),
    'frequency flag': ('F', lambda f: 'Frequencies="' + ' '.join(f['freq'][:-1] + ['F']) + '"'),
    'frequencies unit': ('F', lambda f: 'Frequencies="' + ' '.join(f['freq']) + ' THz"'),
    'frequencies dashes': ('F', lambda f: 'Frequencies="' + ' '.join('--' for _ in f['freq']) + '"'),
    'frequencies semicolons': ('F', lambda f: 'Frequencies="' + ';'.join(f['freq']) + '"'),
    'frequency glued': ('F', lambda f: 'Frequencies="' + ''.join(f['freq'][:2]) + ' '
                        + ' '.join(f['freq'][2:] + ['1.5']) + '"'),
    'energy dash': ('E', lambda f: 'Energy=-'), 'energy question': ('E', lambda f: 'Energy=?'),
    'energy none': ('E', lambda f: 'Energy=None'), 'energy false': ('E', lambda f: 'Energy=F'),
    'energy sum': ('E', lambda f: 'Energy=1+1'), 'energy two exponents': ('E', lambda f: 'Energy=1e2e3'),
    'multiplicity none': ('M', lambda f: 'Multiplicity=None'),
    'multiplicity fraction': ('M', lambda f: 'Multiplicity=3/1'),
    'multiplicity false': ('M', lambda f: 'Multiplicity=F'),
    'frequencies empty': ('F', lambda f: 'Frequencies=""'),
    'frequencies bare': ('F', lambda f: 'Frequencies'),
    'frequencies flags': ('F', lambda f: 'Frequencies="' + ' '.join('T' for _ in f['freq']) + '"'),
    'one mode less': ('D', lambda f: 'Frequencies="' + ' '.join(f['freq'][:-1]) + '"'),
    'one mode more': ('D', lambda f: 'Frequencies="' + ' '.join(f['freq'] + ['1.5']) + '"'),
    'unquoted frequencies': ('D', lambda f: 'Frequencies=' + ' '.join(f['freq'])),
    'unbalanced quote': ('X', lambda f: 'Frequencies="' + ' '.join(f['freq'])),
    'frequencies lower case': ('F', lambda f: 'frequencies="' + ' '.join(f['freq']) + '"'),
    'frequency singular': ('F', lambda f: 'Frequency="' + ' '.join(f['freq']) + '"'),
}
# not recognisable as damage when every isomer has it (another number of modes, or none)
ALONE = ['one mode less', 'one mode more', 'unquoted frequencies', 'frequencies empty']
ATOMS = {
    'unknown element': lambda rows: ['Qq' + rows[0][2:]] + rows[1:],
    'lower case element': lambda rows: [rows[0][:1].lower() + '9' + rows[0][2:]] + rows[1:],
    'number element': lambda rows: ['7.5' + rows[0][3:]] + rows[1:],
    'text coordinate': lambda rows: rows[:-1] + [' '.join(rows[-1].split()[:3] + ['abc'])],
    'two coordinates': lambda rows: rows[:-1] + [' '.join(rows[-1].split()[:3])],
    'no coordinates': lambda rows: rows[:-1] + [rows[-1].split()[0]],
    'only coordinates': lambda rows: [' '.join(rows[0].split()[1:])] + rows[1:],
    'double dot': lambda rows: [rows[0].replace('.', '..', 1)] + rows[1:],
    'stars': lambda rows: [' '.join(rows[0].split()[:3] + ['******'])] + rows[1:],
    'empty line': lambda rows: rows[:-1] + [''],
    'no atoms': lambda rows: None,
}
# not damage with one or two modes
SHORT = ['frequencies semicolons', 'unquoted frequencies', 'frequency stars', 'frequency glued', 'one mode less', 'unbalanced quote']
COUNTS = {'count text': lambda n: 'x', 'count large': lambda n: str(n + 1), 'count zero': lambda n: '0',
          'count small': lambda n: str(n - 1), 'count negative': lambda n: '-1',
          'count real': lambda n: f'{n}.5', 'count empty': lambda n: ''}
WHOLE = ['missing', 'empty', 'binary', 'directory', 'blank', 'text', 'plain xyz', 'html',
         'dangling', 'loop', 'denied', 'long name', 'below a file', 'device']


def cases(tier):
    quick = tier == 'quick'
    for n in ((3, 1) if quick else (3, 1, 2, 4, 5)):
        frames = base(n)
        lines = files.text(frames).splitlines()
        for flags in FLAGS if n != 1 or not quick else ['-e', '-s', '-q', '-cr', '-sqr', '-sc']:
            for i in range(len(lines)):
                for what in ('truncate', 'delete', 'double', 'blank'):
                    yield {'n': n, 'line': i, 'do': what, 'flags': flags}
            for i in range(n):
                for what in list(KEYS) + list(ATOMS) + list(COUNTS):
                    if n == 1 and what in ALONE:
                        continue
                    yield {'n': n, 'isomer': i, 'do': what, 'flags': flags}
        if not quick:
            for i in range(n):
                for j in range(n):
                    for a in KEYS:
                        if n == 1 and a in ALONE:
                            continue
                        for b in KEYS:
                            if n == 2 and a == b and a in ALONE:
                                continue
                            if i != j and (i, a) < (j, b):
                                yield {'n': n, 'isomer': i, 'do': a, 'also': [j, b], 'flags': '-sqr'}
    for n, places in ((12, (5, 11)), (120, (64, 100, 119))):
        for i in places:
            for what in list(KEYS) + list(ATOMS) + list(COUNTS):
                yield {'n': n, 'isomer': i, 'do': what, 'flags': '-sqr'}
        lines = len(files.text(base(n)).splitlines())
        for i in range(max(0, lines - 8), lines):
            for what in ('truncate', 'delete', 'double', 'blank'):
                yield {'n': n, 'line': i, 'do': what, 'flags': '-sqr'}
    for d in (1, 2, 4, 9, 12, 40):
        for i in (0, 2):
            for what, (kind, _) in KEYS.items():
                if kind in 'FDX' and (d > 2 or what not in SHORT):
                    yield {'n': 3, 'd': d, 'isomer': i, 'do': what, 'flags': '-sq'}
    for what in WHOLE:
        for flags in FLAGS:
            yield {'whole': what, 'flags': flags}
    for a in range(1, 5):
        for b in range(1, 5):
            for flags in ('-c', '-sq', '-e', '-r'):
                yield {'modes': [a, b], 'flags': flags}
    for a in (5, 6, 8, 9, 12, 13, 15, 16, 30, 54, 64, 99):
        for step in (-3, -1, 0, 1, 2, a):
            for flags in ('-c', '-sq', '-ecr'):
                yield {'modes': [a, a + step], 'flags': flags}
    for where in range(5):
        for a, b in ((9, 8), (9, 10), (3, 6), (12, 15), (30, 27)):
            for flags in ('-c', '-q', '-sqr'):
                yield {'modes': [b if i == where else a for i in range(5)], 'flags': flags}
    for i in range(3):
        for what in list(KEYS) + list(ATOMS) + list(COUNTS):
            yield {'n': 3, 'isomer': i, 'do': what, 'flags': '-sqr', 'more': 1}


def base(n, d=3):
    if n > 5:
        return [files.isomer(i, d) for i in range(n)]
    return [files.isomer(i, d) for i in (0, 1, 6, 3, 2)[:n]]


def damaged(frames, i, what, lines):
    """(property touched or None, text of isomer i)."""
    f = frames[i]
    rows = lines
    if what in KEYS:
        prop, repl = KEYS[what]
        key = {'E': 'Energy=', 'M': 'Multiplicity=', 'F': 'Frequencies=', 'X': 'Frequencies=', 'D': 'Frequencies='}[prop]
        head = rows[1]
        start = head.index(key)
        end = len(head) if prop in 'FDX' else head.index(' ', start)
        rows = [rows[0], head[:start] + repl(f) + head[end:]] + rows[2:]
        return prop, rows
    if what in ATOMS:
        atoms = ATOMS[what](rows[2:])
        return 'G', ['0', rows[1]] if atoms is None else rows[:2] + atoms
    return 'G', [COUNTS[what](len(f['symbols']))] + rows[1:]


def check(case, ctx):
    frames = base(case.get('n', 3), case.get('d', 3))
    touched = {'all'}
    good = None           # isomers of the damaged file, when it is still a valid file
    content = None
    if 'whole' in case:
        content = {'missing': None, 'empty': '', 'binary': '\x00\x01\x02' * 50, 'directory': None,
                   'dangling': None, 'loop': None, 'long name': None, 'below a file': None, 'device': None,
                   'denied': files.text(frames),
                   'blank': '\n\n\n', 'text': 'hello\nworld\n', 'html': '<html></html>\n',
                   'plain xyz': '3\nwater\nO 0 0 0\nH 0.76 0.59 0\nH -0.76 0.59 0\n'}[case['whole']]
    elif 'modes' in case:
        pair = [files.isomer(i, d) for i, d in zip((0, 6, 3, 1, 2), case['modes'])]
        content = files.text(pair)
        touched = {'D'}
        if len(set(case['modes'])) == 1:
            good = pair
    elif 'line' in case:
        lines = files.text(frames).splitlines()
        i = case['line']
        starts = np.cumsum([0] + [len(f['symbols']) + 2 for f in frames])
        if case['do'] == 'truncate':
            if i in starts and i > 0:
                good = frames[:int(np.flatnonzero(starts == i)[0])]
            lines = lines[:i]
        elif case['do'] == 'delete':
            del lines[i]
        elif case['do'] == 'double':
            lines.insert(i, lines[i])
        else:
            lines[i] = ''
        content = ''.join(x + '\n' for x in lines)
    else:
        blocks = [files.frame_text(f).splitlines() for f in frames]
        prop, blocks[case['isomer']] = damaged(frames, case['isomer'], case['do'],
                                               blocks[case['isomer']])
        touched = {prop}
        if 'also' in case:
            j, b = case['also']
            if j != case['isomer']:
                prop, blocks[j] = damaged(frames, j, b, blocks[j])
                touched.add(prop)
        content = ''.join(x + '\n' for blk in blocks for x in blk)
    letters = set(case['flags'][1:])
    need = set().union(*(NEED[x] for x in letters))
    args = ['in.xyz', case['flags'], '--max_temp', '12']
    if case.get('more'):
        args += ['--plot', '--out_file', 'res']
    with files.Box() as box:
        if content is not None:
            box.write('in.xyz', content)
        elif case['whole'] == 'directory':
            os.mkdir('in.xyz')
        elif case['whole'] in ('dangling', 'loop', 'device'):
            os.symlink({'dangling': 'nowhere.xyz', 'loop': 'in.xyz', 'device': os.devnull}[case['whole']],
                       'in.xyz')
        elif case['whole'] == 'long name':
            args[0] = 'x' * 300 + '.xyz'
        elif case['whole'] == 'below a file':
            args[0] = 'file/in.xyz'
            box.write('file', 'a file\n')
        if case.get('whole') == 'denied':
            if os.getuid() != 0:
                raise HarnessError('needs root to run as another user')
            os.chmod('in.xyz', 0o600)
            os.chmod('.', 0o777)
            os.seteuid(65534)
        try:
            run = files.cli(args)
        finally:
            if case.get('whole') == 'denied':
                os.seteuid(0)
        if os.path.islink('in.xyz'):
            os.remove('in.xyz')
        made = box.files()
        made.pop('file', None)
    made.pop('in.xyz', None)
    ctx.state(case)
    ctx.step()
    ctx.trace()
    text_ = f'input with {describe(case)}, occuprob {case["flags"]}'
    ctx.outcome([run.code != 0, sorted(made), run.err[:40]])
    if good is None and ('all' in touched or 'G' in touched or touched & need
                         or ('D' in touched and 'F' in need)):
        if made and run.code == 0 and blank_frame(case, frames, made, ctx, text_):
            return
        if made:
            raise Violation(f'{text_}: wrote {sorted(made)} (status {run.code})')
        if run.code == 0:
            raise Violation(f'{text_}: the command succeeds')
        return
    if run.code != 0:
        if good is not None:
            raise Violation(f'{text_}: a valid file is refused: {run.err[-200:]}')
        if made:
            raise Violation(f'{text_}: fails but writes {sorted(made)}')
        return
    names = ['res_P.dat', 'res_C.dat'] if case.get('more') else ['in_P.dat', 'in_C.dat']
    tabs = {k: files.table(made[x], x) for k, x in zip('PC', names)}
    files.check_tables(tabs, good or frames, case['flags'][1:].upper(), np.arange(0., 13.), text_)


def blank_frame(case, frames, made, ctx, what):
    """The recorded finding: reading ends at a blank line where an isomer should start, and
    the results are exactly those of the isomers before it."""
    if 'line' in case and case['do'] == 'blank':
        starts = np.cumsum([0] + [len(f['symbols']) + 2 for f in frames]).tolist()
        if case['line'] not in starts[1:-1]:
            return False
        left = frames[:starts.index(case['line'])]
    elif case.get('do') == 'count empty' and case['isomer'] > 0 and 'also' not in case:
        left = frames[:case['isomer']]
    else:
        return False
    names = ['res_P.dat', 'res_C.dat'] if case.get('more') else ['in_P.dat', 'in_C.dat']
    tabs = {k: files.table(made[x], x) for k, x in zip('PC', names)}
    files.check_tables(tabs, left, case['flags'][1:].upper(), np.arange(0., 13.), what)
    ctx.known('BLANK-LINE', what)
    return True


def describe(case):
    if 'whole' in case:
        return case['whole']
    if 'modes' in case:
        return f'{case["modes"]} modes'
    if 'line' in case:
        return f'line {case["line"] + 1} of {case["n"]} isomers: {case["do"]}'
    return f'{case["do"]} in isomer {case["isomer"] + 1} of {case["n"]}' + \
        (f' and {case["also"][1]} in isomer {case["also"][0] + 1}' if 'also' in case else '')
