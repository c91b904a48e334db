"""Writes the generated part of DESIGN.md: per property what decides it, the repairs, the planted bugs."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

ORACLE = {
    'C01': 'distances and displacement vectors against the least of all images, each candidate image written down in the harness; boxes with symbolic lengths and tilts, positions anywhere',
    'C02': 'neighbor lists against the definition (all images closer than the cutoff, filters by type), for both the plain and the cell list search called directly',
    'C03': 'cell lists (the C++ set_up_cells and search forced on) against the plain search of the same system',
    'C04': 'adaptive search and search by number against sorted distances of all atoms; the guess of the search radius is the code\'s own',
    'C05': 'SANN against its definition: the least m with sum of the m nearest distances/(m-2) below the next distance',
    'C06': 'q and averaged q values against the addition theorem (sums of Legendre polynomials of bond angles, so no spherical harmonics are shared with the code) and components against explicit harmonics',
    'C07': 'conditions and averages against means over the admitted neighbors, built from the components the code reports',
    'C08': 'bond coherence against the normalised scalar product of components; counts and solid flags against all thresholds',
    'C09': 'clusters against the connected components of the neighbor graph computed in the harness, for all condition patterns and movements of an atom',
    'C10': 'a list model of the system (assign, add, set, get in any order) beside the real one; copies against positions plus box vectors',
    'C11': 'the set of copies against all combinations of repetitions',
    'C12': 'fractional coordinates by the cofactor inverse of the box in the harness',
    'C13': 'signatures computed from the definition (common neighbors, bonds, longest degrees) by exact squared distances; ties of the nearest lists are tried in all ways',
    'C14': 'diamond classification against the definition over the neighbors of neighbors',
    'C15': 'sorted pair sums from the definition',
    'C16': 'disorder from the components, and invariance under turns of symbolic angle',
    'C17': 'g(r), the trapezoid rule and switching averages from the documented formulas; exp and log are uninterpreted but for their values at the same argument',
    'C18': 'a stand-in for voro++ that returns fixed or symbolic faces (areas, vertices, neighbors); everything done with them by pyscal is executed. The tessellation itself is the voro++ library',
    'C19': 'edges from vertices of polygons with symbolic coordinates, by definition',
    'C20': 'histogram counts from all pair distances; normalisation from the shell volumes',
    'C21': 'all pairs of bonds; cosines by the law of cosines from squared distances',
    'C22': 'Warren-Cowley numbers from counted types, over all types and all symbolic neighbor shells',
    'C23': 'a new system of the same box and atoms',
    'C24': 'the harness writes the dump file from symbolic numbers (each number is a token in the text that is parsed to the symbolic value again) and compares box and atoms',
    'C25': 'writing and reading back; lengths, angles and relative positions are compared; the rounding to six decimals is a symbolic error',
    'C26': 'a list of snapshots beside the trajectory file',
    'C27': 'the real ase objects replaced by records with the same interface in the symbolic run; the real ase, mdtraj in the replay',
    'C28': 'basis and lattice vectors of every structure in the harness; random numbers of the noise are symbolic values',
    'C29': 'a recording stand-in for the lammps module that returns symbolic energies in any order of ids',
    'C31': 'volumes sorted by their rounded value with the fingerprints of their atoms; voids counted from the distances written down in the harness',
    'C30': 'a new system on which only the later calculation was done',
}


def main():
    out = []
    w = out.append
    w('## Properties: what decides them\n')
    w('Every property is decided by the method above (symbolic execution of the code named in its anchors, Z3 for branches and assertions). The table of each '
      'property gives the oracle, the bounds and what lies outside; costs are wall times of the quick tier on 8 cores.\n')
    for f in sorted(glob.glob(V + '/checks/c[0-9][0-9].py')):
        m = importlib.import_module('checks.' + os.path.basename(f)[:-3])
        pid = os.path.basename(f)[:-3].upper()
        w('### %s %s\n' % (pid, m.PROPERTY['title']))
        w('* Claim: %s' % m.PROPERTY['statement'])
        w('* Oracle: %s.' % ORACLE.get(pid, 'the definition, written down in the harness'))
        w('* Harnesses: %s (quick %d, thorough %d configurations).' % (', '.join('`%s`' % h.name for h in m.HARNESSES), sum(len(h.quick) for h in m.HARNESSES), sum(len(h.thorough) for h in m.HARNESSES)))
        w('* Bounds: %s.' % m.BOUNDS.rstrip('.'))
        w('* Outside: %s.' % m.OUTSIDE.rstrip('.'))
        w('* Why tests cannot: %s\n' % m.PROPERTY['why_tests_cant'])
    k = json.load(open(V + '/known_findings.json'))
    w('## Findings\n')
    w('Known, not repaired (reported as KNOWN-FINDING, in `known_findings.json`):\n')
    for x in k['known']:
        w('* %s `%s`: %s' % (x['property'], x['id'], x['what_fails']))
    w('\nRepaired by "fix:" commits (a fixed entry suppresses nothing):\n')
    for x in k['fixed']:
        w('* ' + x.replace('fixed: property=', ''))
    w('\n## Planted bugs\n')
    w('Each is a patch in `seeded/<id>` that builds, passes the tests, and fails its demonstration. All are caught by the quick check of their property.\n')
    w('| id | property | needs | breaks |')
    w('|---|---|---|---|')
    for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
        d = json.load(open(f))
        w('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'], d['what_it_breaks']))
    text = open(V + '/DESIGN.md').read()
    mark = '<!-- generated by tools/design.py from here on -->\n'
    text = text.split(mark)[0].rstrip('\n') + '\n\n' + mark + '\n' + '\n'.join(out) + '\n'
    open(V + '/DESIGN.md', 'w').write(text)


main()
