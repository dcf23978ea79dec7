"""Parsers of the files the library writes (format as produced, layout-tolerant)."""


def xyz(path):
    """-> (count, title, atoms [(x,y,z,[ints],comment tokens)], trailing lines)"""
    with open(path) as f:
        L = f.read().split('\n')
    n = int(L[0].split()[0])
    atoms = []
    for l in L[2:2 + n]:
        t = l.split()
        ints = [int(x) for x in t[-18:]]
        atoms.append((float(t[1]), float(t[2]), float(t[3]), ints, t))
    return n, L[1], atoms, [l for l in L[2 + n:] if l.strip()]


SECT = ('MOLECULE', 'TITLE', 'GROUP', 'SYMOP', 'TRANM', 'LTRANSL', 'LORIENT', 'LMATRIX', 'CELLP', 'STRUC', 'THERI', 'SHAPE', 'BOUND', 'SBOND', 'SITET',
        'VECTR', 'VECTT', 'SPLAN', 'LBLAT', 'LBLSP', 'DLATM', 'DLBND', 'DLPLY', 'PLN2D', 'ATOMT', 'SCENE', 'HBOND', 'STYLE')


def vesta(path):
    """-> list of molecules {section: [token lists]} , head line, tail sections"""
    with open(path) as f:
        L = f.read().split('\n')
    head = L[0].strip()
    mols, cur, sec, tail = [], None, None, {}
    for l in L[1:]:
        t = l.split()
        if not t:
            continue
        if t[0] in SECT:
            if t[0] == 'MOLECULE':
                cur = {}
                mols.append(cur)
            if t[0] == 'ATOMT':
                cur = tail
            sec = t[0]
            (cur if cur is not None else tail).setdefault(sec, [])
            continue
        if sec is not None:
            (cur if cur is not None else tail)[sec].append(t)
    return mols, head, tail


def atoms(mol):
    """STRUC: [(number, label, (x,y,z))], checks the terminator"""
    out = []
    rows = mol['STRUC']
    i = 0
    while i < len(rows):
        r = rows[i]
        if r[0] == '0' and all(x == '0' for x in r):
            return out, i == len(rows) - 1
        out.append((int(r[0]), r[2], tuple(float(x) for x in r[4:7])))
        i += 2
    return out, False


def table(mol, sec):
    """rows of a numbered section up to its 0 terminator"""
    rows = mol[sec]
    out = []
    for i, r in enumerate(rows):
        if all(x == '0' for x in r):
            return out, i == len(rows) - 1
        out.append(r)
    return out, False


def pod(path):
    with open(path) as f:
        L = [l.split() for l in f.read().split('\n') if l.strip()]
    serial, n, two = (int(x) for x in L[0][:3])
    ej = [[float(x) for x in l[1:7]] for l in L[1:] if l[0] == 'ej=']
    nth = next(l for l in L if l[0] == 'nth=')
    return serial, n, ej, int(nth[1]), [int(x) for x in nth[2:]]


def atm(path):
    with open(path) as f:
        L = [l.split() for l in f.read().split('\n') if l.strip()]
    x = next(l for l in L if l[0] == 'x=')
    return L[0], [float(v) for v in x[1:7]]
