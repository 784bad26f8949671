"""Helpers shared by the property modules: small builders on resqpy's public interface, and an independent reader of
stored files (plain zipfile + ElementTree, no resqpy code)."""

import os
import re
import uuid as pyuuid
import zipfile
import xml.etree.ElementTree as ET

import numpy as np

from mc.core import expect, Violation  # noqa: F401 (re-exported)


def new_model(path, crs = False, h5 = False):
    import resqpy.model as rq
    m = rq.Model(epc_file = path, new_epc = True, create_basics = True, create_hdf5_ext = h5)
    if crs:
        add_crs(m)
    return m


def add_crs(m, **kw):
    import resqpy.crs as rqc
    c = rqc.Crs(m, **kw)
    c.create_xml()
    return c


def open_model(path, **kw):
    import resqpy.model as rq
    return rq.Model(path, **kw)


def close(m):
    try:
        m.h5_release()
    except Exception:
        pass


def local(tag):
    return tag.rsplit('}', 1)[-1]


class Stored:
    """What is really in an .epc file, read without resqpy."""

    def __init__(self, path):
        with zipfile.ZipFile(path) as z:
            self.names = z.namelist()
            self.bytes = {n: z.read(n) for n in self.names}
        self.xml = {n: ET.fromstring(b) for n, b in self.bytes.items()}
        self.overrides = []
        self.defaults = []
        for ch in self.xml['[Content_Types].xml']:
            if local(ch.tag) == 'Override':
                self.overrides.append((ch.attrib['PartName'].lstrip('/'), ch.attrib['ContentType']))
            elif local(ch.tag) == 'Default':
                self.defaults.append(ch.attrib['Extension'])
        self.rels = {}
        for n, root in self.xml.items():
            if n.endswith('.rels'):
                self.rels[n] = [(ch.attrib['Type'].rsplit('/', 1)[-1], ch.attrib['Target'].lstrip('/'),
                                 ch.attrib.get('TargetMode')) for ch in root]
        self.objects = {n: r for n, r in self.xml.items() if 'obj_' in n and not n.endswith('.rels')}

    def check_wellformed(self, rels_for = None, dangling_ok = False):
        """Package-level consistency that any reader of the file relies on."""
        expect(len(set(self.names)) == len(self.names), 'member written twice:', sorted(self.names))
        ov = [n for n, _ in self.overrides]
        expect(len(set(ov)) == len(ov), 'content types lists a part twice:', sorted(ov))
        for n in ov:
            expect(n in self.names, 'content types lists a part that is not in the file:', n)
        for n in self.objects:
            expect(n in ov, 'part in the file is not listed in content types:', n)
        uuids = {}
        for n, root in self.objects.items():
            u = pyuuid.UUID(root.attrib['uuid'])
            m = re.search(r'([0-9a-f-]{36})\.xml$', n)
            expect(m and pyuuid.UUID(m.group(1)) == u, 'uuid in part name differs from uuid in xml:', n, u)
            expect(u not in uuids, 'uuid appears in two parts:', n, uuids.get(u))
            uuids[u] = n
            typ = [v for k, v in root.attrib.items() if local(k) == 'type']
            expect(typ and typ[0].split(':')[-1] == os.path.basename(n)[:-41],
                   'type attribute differs from part name:', n, typ)
            ct = dict(self.overrides)[n]
            expect(ct.endswith('type=' + os.path.basename(n)[:-41]), 'content type differs from part name:', n, ct)
        for n, rl in self.rels.items():
            d, f = os.path.split(n)
            owner = (os.path.join(os.path.dirname(d), f[:-5])) if f != '.rels' else None
            if owner is not None:
                expect(owner in self.names, 'relationships stored for a part that is not in the file:', n)
            for typ, target, mode in rl:
                if mode == 'External':
                    continue
                expect(target in self.names, 'relationship to a part that is not in the file:', n, target)
                expect(target != owner, 'part is related to itself:', n)
                if owner is not None:
                    tr = os.path.join(os.path.dirname(target), '_rels', os.path.basename(target) + '.rels')
                    expect(tr in self.rels and owner in [t for _, t, _ in self.rels[tr]],
                           'relationship is not reciprocated:', n, target)
        if not dangling_ok:
            for n in self.objects:
                for u, title, ct in self.references(n):
                    expect(u in uuids, 'reference to an object that is not in the file:', n, title, u)
                    expect(ct.endswith('type=' + os.path.basename(uuids[u])[:-41]),
                           'reference names the wrong type:', n, ct, uuids[u])
        return uuids

    def references(self, n):
        out = []
        for e in self.xml[n].iter():
            if any(v.split(':')[-1] == 'DataObjectReference' for v in e.attrib.values()):
                d = {local(c.tag): (c.text or '').strip() for c in e}
                out.append((pyuuid.UUID(d['UUID']), d.get('Title'), d['ContentType']))
        return out

    def title(self, n):
        for c in self.xml[n]:
            if local(c.tag) == 'Citation':
                for d in c:
                    if local(d.tag) == 'Title':
                        return (d.text or '').strip()

    def h5_paths(self, n):
        return [e.text for e in self.xml[n].iter() if local(e.tag) == 'PathInHdfFile']


def h5_content(path, digest_only = False):
    """Every dataset of an hdf5 file, read without resqpy."""
    import h5py
    out = {}
    if not os.path.exists(path):
        return out
    with h5py.File(path, 'r') as f:

        def visit(name, obj):
            if isinstance(obj, h5py.Dataset):
                out['/' + name] = obj[()]

        f.visititems(visit)
    return out


def same(a, b):
    """Exact equality of arrays (shape, values; nan equals nan)."""
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        return bool(np.array_equal(a, b, equal_nan = True))
    return bool(np.array_equal(a, b))


def near(a, b, tol = 1.0e-6):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a, dtype = float), np.asarray(b, dtype = float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol = tol, atol = tol, equal_nan = True))


def raises(fn, *a, **k):
    try:
        fn(*a, **k)
    except Exception as e:
        return e
    return None


def chunks(seq, n):
    seq = list(seq)
    n = max(1, min(n, len(seq)))
    return [seq[i::n] for i in range(n)]


def set_citation(root, title = None, created = None):
    for c in root:
        if local(c.tag) == 'Citation':
            for d in c:
                if title is not None and local(d.tag) == 'Title':
                    d.text = title
                if created is not None and local(d.tag) == 'Creation':
                    d.text = created
