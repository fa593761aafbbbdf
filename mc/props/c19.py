"""C19: the temperature range of the command line is exactly the requested one."""
import itertools
from decimal import Decimal

import numpy as np

import files
from core import Violation

ID = 'C19'
CHUNK = 8
STATES = 'distinct (minimum, maximum, spelling) temperature requests'
MINS = ['0', '1', '3', '10', '50', '100', '273', '0.5', '0.25', '0.1', '0.3', '10.1', '99.7', '273.15',
        '1e2', '0.001', '7.77', '500', '600', '1000.5', '3000']
SPANS = ['0', '1', '2', '3', '10', '25', '0.5', '0.1', '0.9', '0.999', '1.5', '2.3', '10.7', '2.0001',
         '33.3', '60.25', '3.9999999999', '0.99999999995', '7.000000000001']
DIGITS = ['123.456789', '298.150001', '0.0000125', '77.36', '99.9999999', '0.123456789012', '5e-3', '2.5E1',
          '00012.5', '+7.25', '.5', '12.', '0.9999', '3.00000001']
LARGE = [('0', '1000'), ('0', '500'), ('298.15', '1298.15'), ('0.1', '2000.1'), ('1000', '1500'),
         ('0', '1499.5'), ('0.7', '700.7'), ('499', '500'), ('500', '500'), ('0', '12000'), ('20000', '20100'),
         ('0.3', '40000.3'), ('7.25', '70007'), ('0', '131073')]
OPTIONS = [['--plot'], ['--out_file', 'in'], ['--plot', '--plot_format', 'png', '--size', '4', '3']]
BOUNDS = {'quick': 'all pairs of 21 minima and 19 spans (whole, fractional, zero) x 2 spellings with '
                   'SC; 14 minima of many digits or unusual notation x 5 spans; 17 minima x 3 further options (plots, prefixes); 14 long ranges up to 131074 rows; defaults for minimum and maximum; 6 contribution sets for '
                   '20 ranges; row contents compared with the API and the reference model',
          'thorough': 'plus all 0.05 K steps of minima up to 2 K and spans up to 4 K'}
ASSUMPTIONS = ['temperatures with up to 12 decimals; "whole number of kelvin above" is decided in '
               'decimal arithmetic']


def cases(tier):
    for lo in MINS:
        for span in SPANS:
            hi = Decimal(lo) + Decimal(span)
            for k, style in enumerate(('separate', 'equals')):
                yield {'min': lo, 'max': f'{hi:f}', 'style': style}
    for lo in DIGITS:
        for span in ('0', '1', '4', '0.5', '7.75'):
            yield {'min': lo, 'max': f'{Decimal(lo) + Decimal(span):f}'}
    for lo, hi in LARGE:
        yield {'min': lo, 'max': hi}
    for lo in DIGITS + ['0', '10.1', '273.15']:
        for k in range(len(OPTIONS)):
            yield {'min': lo, 'max': f'{Decimal(lo) + Decimal("4.5"):f}', 'options': k}
    for hi in ('0', '1', '12', '99', '0.5', '10.5', '500', '501', '750'):
        yield {'max': hi}
    for lo in ('0', '1', '450', '499', '499.5', '500', '0.5', '123.25'):
        yield {'min': lo}
    yield {}
    for flags in ('-e', '-q', '-r', '-sq', '-cr', '-sqr'):
        for lo, hi in itertools.product(('0', '0.5', '20', '98.6', '300'), ('300', '305', '310.6',
                                                                            '312.25')):
            yield {'min': lo, 'max': hi, 'flags': flags}
    if tier != 'quick':
        for i, j in itertools.product(range(41), range(81)):
            lo = Decimal(i) * Decimal('0.05')
            yield {'min': f'{lo:f}', 'max': f'{lo + Decimal(j) * Decimal("0.05"):f}'}


def check(case, ctx):
    lo, hi = Decimal(case.get('min', '0')), Decimal(case.get('max', '500'))
    want = np.array([float(lo + i) for i in range(int(hi - lo) + 1)])
    flags = case.get('flags', '-sc')
    args = ['in.xyz', flags]
    for key in ('min', 'max'):
        if key in case:
            args += [f'--{key}_temp={case[key]}'] if case.get('style') == 'equals' else \
                [f'--{key}_temp', case[key]]
    if 'options' in case:
        args += OPTIONS[case['options']]
    frames = [files.isomer(i, 3) for i in range(2)]
    with files.Box() as box:
        box.write('in.xyz', files.text(frames))
        run = files.cli(args)
        made = box.files()
    ctx.state(args)
    ctx.step()
    ctx.trace()
    cmd = 'occuprob ' + ' '.join(args)
    if run.code != 0:
        raise Violation(f'{cmd} failed with status {run.code}: {run.err[-300:]}')
    if not {'in_P.dat', 'in_C.dat'} <= set(made):
        raise Violation(f'{cmd} wrote {sorted(made)}')
    tabs = {k: files.table(made[f'in_{k}.dat'], f'in_{k}.dat') for k in 'PC'}
    for k, tab in tabs.items():
        if len(tab) != len(want):
            raise Violation(f'{cmd}: table {k} has {len(tab)} rows from {tab[0, 0]} to {tab[-1, 0]} K, '
                            f'expected {len(want)} from {want[0]} to {want[-1]} K')
        if tab[:, 0].max() > float(hi) * (1 + 1e-12):
            raise Violation(f'{cmd}: table {k} reaches {tab[:, 0].max()} K')
    files.check_tables(tabs, frames, flags[1:].upper(), want, cmd)
    ctx.outcome([len(want), float(want[0])])
