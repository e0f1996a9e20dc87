"""Units as scale x dimension x symbolic unit names.

Atomic units with hbar = m_e = e = bohr = k_B = 4 pi eps0 = 1: every unit is a
number times M^a L^b, so an energy is M^-1 L^-2.  A unit whose name is only
known at run time (`frequencies_unit`, a parameter) is a symbolic atom with an
exponent.  Two units are the same if scale, exponents and atoms agree."""
import math
import re
from fractions import Fraction

HARTREE_J = 4.3597447222060e-18
BOHR_M = 5.29177210544e-11
ME_KG = 9.1093837139e-31
E_C = 1.602176634e-19
AUT_S = 2.4188843265864e-17
K_J = 1.380649e-23
ENERGY = (Fraction(-1), Fraction(-2))
LEN = (Fraction(0), Fraction(1))
MASS = (Fraction(1), Fraction(0))
TIME = (Fraction(1), Fraction(2))
CHARGE = (Fraction(-1, 2), Fraction(-1, 2))
ZERO = (Fraction(0), Fraction(0))


NICEPOW = {}


class Unit:
    __slots__ = ('log', 'dim', 'atoms', '_h')

    def __init__(self, log=0.0, dim=ZERO, atoms=()):
        self.log = log
        self.dim = dim
        self.atoms = tuple(sorted((k, v) for k, v in dict(atoms).items()
                                  if v != 0))
        self._h = None

    def __mul__(a, b):
        at = dict(a.atoms)
        for k, v in b.atoms:
            at[k] = at.get(k, 0) + v
        return Unit(a.log + b.log, (a.dim[0] + b.dim[0], a.dim[1] + b.dim[1]),
                    at)

    def __pow__(a, n):
        n = Fraction(n).limit_denominator(24)
        return Unit(a.log*float(n), (a.dim[0]*n, a.dim[1]*n),
                    {k: v*n for k, v in a.atoms})

    def __truediv__(a, b):
        return a*b**-1

    def __eq__(a, b):
        return isinstance(b, Unit) and a.dim == b.dim and \
            a.atoms == b.atoms and abs(a.log - b.log) < 1e-6

    def __ne__(a, b):
        return not a == b

    def __hash__(self):
        return hash((self.dim, self.atoms, round(self.log, 5)))

    @property
    def concrete(self):
        return not self.atoms

    def __str__(self):
        if self._h is None:
            self._h = self.text()
        return self._h

    def text(self):
        out = []
        for k, v in self.atoms:
            out.append(f'[{k}]' + ('' if v == 1 else f'^{v}'))
        best = None
        for nm in NICE:
            for n in (1, -1, 2, -2, 3, -3):
                p = NICEPOW.get((nm, n))
                if p is None:
                    p = NICEPOW[nm, n] = TABLE[nm]**n
                if p.dim == self.dim and abs(p.log - self.log) < 1e-6:
                    best = best or (nm if n == 1 else f'{nm}^{n}')
        if best:
            if best != '1' or not out:
                out.append(best)
        else:
            s = math.exp(self.log) if abs(self.log) < 600 else float('inf')
            d = ''.join(f' {n}^{e}' for n, e in zip('ML', self.dim) if e)
            out.append(f'{s:.6g}{d}')
        return '*'.join(out)
    __repr__ = __str__


def atom(name):
    return Unit(0.0, ZERO, {name: Fraction(1)})


ONE = Unit()


def _u(x, dim):
    return Unit(math.log(x), dim)


_cm = 0.01/BOHR_M
TABLE = {
    '1': ONE, 'dimensionless': ONE, 'radian': ONE, 'rad': ONE,
    'degree': _u(math.pi/180, ZERO), 'deg': _u(math.pi/180, ZERO),
    'percent': _u(.01, ZERO),
    'bohr': _u(1, LEN), 'a_0': _u(1, LEN), 'a0': _u(1, LEN),
    'meter': _u(1/BOHR_M, LEN), 'm': _u(1/BOHR_M, LEN),
    'metre': _u(1/BOHR_M, LEN), 'cm': _u(_cm, LEN),
    'centimeter': _u(_cm, LEN), 'mm': _u(_cm/10, LEN),
    'nm': _u(1e-9/BOHR_M, LEN), 'fm': _u(1e-15/BOHR_M, LEN),
    'femtometer': _u(1e-15/BOHR_M, LEN), 'pm': _u(1e-12/BOHR_M, LEN),
    'angstrom': _u(1e-10/BOHR_M, LEN), 'Angstrom': _u(1e-10/BOHR_M, LEN),
    'inches': _u(0.0254/BOHR_M, LEN), 'inch': _u(0.0254/BOHR_M, LEN),
    'barn': _u(1e-28/BOHR_M**2, (Fraction(0), Fraction(2))),
    'mbarn': _u(1e-31/BOHR_M**2, (Fraction(0), Fraction(2))),
    'millibarn': _u(1e-31/BOHR_M**2, (Fraction(0), Fraction(2))),
    'hartree': _u(1, ENERGY), 'E_h': _u(1, ENERGY), 'Ha': _u(1, ENERGY),
    'rydberg': _u(.5, ENERGY), 'Ry': _u(.5, ENERGY),
    'J': _u(1/HARTREE_J, ENERGY), 'joule': _u(1/HARTREE_J, ENERGY),
    'eV': _u(E_C/HARTREE_J, ENERGY), 'meV': _u(E_C/HARTREE_J/1e3, ENERGY),
    'keV': _u(E_C/HARTREE_J*1e3, ENERGY),
    'electron_volt': _u(E_C/HARTREE_J, ENERGY),
    'K': _u(K_J/HARTREE_J, ENERGY), 'kelvin': _u(K_J/HARTREE_J, ENERGY),
    'degK': _u(K_J/HARTREE_J, ENERGY),
    's': _u(1/AUT_S, TIME), 'second': _u(1/AUT_S, TIME),
    'fs': _u(1e-15/AUT_S, TIME), 'ps': _u(1e-12/AUT_S, TIME),
    'us': _u(1e-6/AUT_S, TIME), 'ms': _u(1e-3/AUT_S, TIME),
    'Hz': _u(AUT_S, (-TIME[0], -TIME[1])),
    'THz': _u(1e12*AUT_S, (-TIME[0], -TIME[1])),
    'terahertz': _u(1e12*AUT_S, (-TIME[0], -TIME[1])),
    'GHz': _u(1e9*AUT_S, (-TIME[0], -TIME[1])),
    'm_e': _u(1, MASS), 'electron_mass': _u(1, MASS),
    'kg': _u(1/ME_KG, MASS), 'g': _u(1e-3/ME_KG, MASS),
    'gram': _u(1e-3/ME_KG, MASS),
    'amu': _u(1.66053906892e-27/ME_KG, MASS),
    'u': _u(1.66053906892e-27/ME_KG, MASS),
    'dalton': _u(1.66053906892e-27/ME_KG, MASS),
    'Da': _u(1.66053906892e-27/ME_KG, MASS),
    'unified_atomic_mass_unit': _u(1.66053906892e-27/ME_KG, MASS),
    'e': _u(1, CHARGE), 'elementary_charge': _u(1, CHARGE),
    'C': _u(1/E_C, CHARGE), 'coulomb': _u(1/E_C, CHARGE),
    'mol': _u(6.02214076e23, ZERO), 'mole': _u(6.02214076e23, ZERO),
}
# physical constants: data with a value, not conversion units
CONSTANTS = {
    'k': _u(1, ZERO), 'k_B': _u(1, ZERO), 'boltzmann_constant': _u(1, ZERO),
    'hbar': _u(1, ZERO), 'h': _u(2*math.pi, ZERO),
    'planck_constant': _u(2*math.pi, ZERO),
    'c': _u(137.035999177, (Fraction(-1), Fraction(-1))),
    'speed_of_light': _u(137.035999177, (Fraction(-1), Fraction(-1))),
    'neutron_mass': _u(1.67492750056e-27/ME_KG, MASS),
    'm_n': _u(1.67492750056e-27/ME_KG, MASS),
    'proton_mass': _u(1.67262192595e-27/ME_KG, MASS),
    'm_p': _u(1.67262192595e-27/ME_KG, MASS),
    'epsilon_0': _u(1/(4*math.pi), ZERO),
    'vacuum_permittivity': _u(1/(4*math.pi), ZERO),
    'N_A': _u(6.02214076e23, ZERO),
}
NICE = ['1', 'hartree', 'meV', 'eV', 'THz', 'bohr', 'angstrom', 'cm', 'fm',
        'm_e', 'amu', 'kg', 'e', 'K', 'barn', 'mbarn', 'J', 's']

_TOK = re.compile(r'\s*(\*\*|\^|[*/()]|[+-]?\d+\.?\d*(?:[eE][+-]?\d+)?|'
                  r'[A-Za-z_][A-Za-z_0-9]*|\[[^\]]+\]|-)')


class UnitError(Exception):
    pass


def parse(text):
    """(unit, carrier): carrier is the part of the unit made of ordinary units
    (tag 1), i.e. unit with physical constants counted as data.  `[name]`
    inside text is a symbolic unit."""
    toks, i = [], 0
    text = text.strip()
    while i < len(text):
        m = _TOK.match(text, i)
        if not m:
            raise UnitError(text)
        toks.append(m.group(1))
        i = m.end()
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def nxt():
        t = peek()
        pos[0] += 1
        return t

    def num(t):
        return float(t)

    def atom_():
        t = nxt()
        if t is None:
            raise UnitError(text)
        if t == '(':
            r = expr()
            if nxt() != ')':
                raise UnitError(text)
            return r
        if t.startswith('['):
            return atom(t[1:-1]), ONE
        if re.match(r'[+-]?\d', t):
            x = num(t)
            # a number in a unit string is part of the value
            return ONE, ONE
        if t in TABLE:
            return TABLE[t], ONE
        if t in CONSTANTS:
            return CONSTANTS[t], CONSTANTS[t]
        raise UnitError(f'unknown unit {t} in {text}')

    def power():
        u, c = atom_()
        while peek() in ('**', '^'):
            nxt()
            t = nxt()
            neg = False
            if t == '(':
                e = nxt()
                if e == '-':
                    e = '-' + nxt()
                d = 1
                if peek() == '/':
                    nxt()
                    d = int(nxt())
                nxt()
                n = Fraction(e)/d
            else:
                if t == '-':
                    t = '-' + nxt()
                n = Fraction(t)
            u, c = u**n, c**n
        return u, c

    def expr():
        u, c = power()
        while True:
            t = peek()
            if t == '*':
                nxt()
                v, d = power()
                u, c = u*v, c*d
            elif t == '/':
                nxt()
                v, d = power()
                u, c = u/v, c/d
            elif t is None or t == ')':
                return u, c
            else:           # juxtaposition
                v, d = power()
                u, c = u*v, c*d

    if not toks:
        return ONE, ONE
    r = expr()
    if pos[0] != len(toks):
        raise UnitError(text)
    return r


if __name__ == '__main__':
    h = TABLE['hartree']
    assert (h/TABLE['bohr']**2/TABLE['m_e'])**Fraction(1, 2) == h
    assert parse('e**2/(bohr*hartree)')[0] == ONE
    assert parse('1/angstrom')[0] == TABLE['angstrom']**-1
    assert parse('meV angstrom^2')[0] == TABLE['meV']*TABLE['angstrom']**2
    assert str(parse('1 / (1/cm)')[0]) == 'cm', str(parse('1 / (1/cm)')[0])
    assert parse('hartree*bohr')[0] == h*TABLE['bohr']
    print(parse('hbar^2 / neutron_mass'), parse('[x]*meV'))
