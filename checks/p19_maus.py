"""P19: MAUS spill documents."""
import collections
import contextlib
import io
import json
import math
import os

from xmon import gen
import xboa.common as Common
import xboa.common.config as config
import xboa.bunch._bunch as bunch_module
from xboa.bunch import Bunch
from xboa.hit import BadEventError, Hit
from xboa.hit import factory
import xboa.hit.factory._maus_root_hit_factory as root_module
import xboa.hit.factory._maus_root_recon_hit_factory as recon_module

ID = 'P19'
NEEDS_ROOT = True
RULE = ('bunches with any pattern of events, particles, stations and species '
        'converted to documents, judged against an independent table of named '
        'fields, written, read back by every reader; generated documents with '
        'several events per spill, missing branches and bystanders; and spill '
        'trees with the interface of the MAUS ROOT classes; distinct by '
        'pattern of identifiers and kind')
REQUIRED = {'tree': 400, 'written': 250, 'virtual': 200, 'primary': 100,
            'special': 100, 'hit placed': 2500, 'foreign document': 250,
            'several types': 80, 'missing branch': 60, 'unknown pid': 60,
            'root tree': 200, 'root virtual': 80, 'root step': 80,
            'root primary': 50, 'root scifi': 50, 'two hits of a primary': 20,
            'repeated station': 100, 'root file': 120, 'limited': 40,
            'several root files': 60, 'every kind': 25,
            'time from SpacePoint': 200, 'time from SlabHit': 80,
            'time from Digit': 30, 'no time': 20, 'poor fit': 100,
            'energy rules': 150, 'unknown root pid': 40, 'broken line': 100,
            'root scifi_and_tof': 50}
KINDS = {'virtual': ('maus_json_virtual_hit', 'virtual_hits'),
         'special': ('maus_json_special_virtual_hit', 'special_virtual_hits'),
         'primary': ('maus_json_primary', 'primary')}
VECTORS = {'virtual': {'position': '', 'momentum': 'p', 'b_field': 'b',
                       'e_field': 'e'},
           'special': {'position': '', 'momentum': 'p'},
           'primary': {'position': '', 'momentum': 'p'}}
SCALARS = {'virtual': {'station_id': 'station', 'particle_id': 'pid',
                       'track_id': 'particle_number', 'time': 't',
                       'mass': 'mass', 'charge': 'charge',
                       'proper_time': 'proper_time',
                       'path_length': 'path_length'},
           'special': {'particle_id': 'pid', 'track_id': 'particle_number',
                       'time': 't', 'mass': 'mass', 'charge': 'charge',
                       'path_length': 'path_length',
                       'energy_deposited': 'e_dep'},
           'primary': {'particle_id': 'pid', 'time': 't', 'energy': 'energy'}}
CHARGE = {11: -1, -11: 1, 13: -1, -13: 1, 211: 1, -211: -1, 321: 1, -321: -1,
          2212: 1, -2212: -1, 22: 0, 2112: 0, 111: 0, 12: 0, -14: 0}


def document_of(kind, hit):
    """What the document of a hit must be"""
    out = {k: {c: hit[v+c] for c in 'xyz'} for k, v in VECTORS[kind].items()}
    for k, v in SCALARS[kind].items():
        out[k] = hit[v]
    return out


def draw(r, m, kind, n=None):
    Hit.clear_global_weights()
    hits = []
    n = r.randint(1, 20) if n is None else n
    events = [r.randint(0, 2**31-1) for _ in range(3)]+[0, 1, 2, -4]
    if kind == 'primary':
        keys = set()
        while len(keys) < n:
            keys.add((r.choice(events), r.randint(0, 12)))
        keys = list(keys)
        r.shuffle(keys)
    for i in range(n):
        d = gen.hit_dict(r, pids=sorted(CHARGE))
        d['charge'] = float(CHARGE[d['pid']])
        d['event_number'] = r.choice(events)
        d['particle_number'] = r.randint(0, 3)
        if kind == 'primary':
            d['event_number'], d['particle_number'] = keys[i]
        d['spill'] = r.randint(0, 3)
        for k in ('x', 'bx', 'ey', 't', 'proper_time', 'e_dep'):
            if r.random() < .3:
                d[k] = gen.any_float(r)
        if r.random() < .3:
            d['mass'] = r.uniform(0, 500) if kind != 'primary' else d['mass']
            d['energy'] = math.sqrt(d['mass']**2+sum(
                d[k]**2 for k in ('px', 'py', 'pz')))
        hits.append(gen.make_hit(d))
    if len({(h['event_number'], h['particle_number'], h['station'])
            for h in hits}) < n:
        m.event('repeated station')
    return hits


def frozen(x):
    return json.dumps(x, sort_keys=True)


def trees(r, m):
    kind = r.choice(sorted(KINDS))
    name, branch = KINDS[kind]
    hits = draw(r, m, kind)
    before = [gen.state(h) for h in hits]
    docs = Hit.get_maus_tree(hits, name)
    m.equal([gen.state(h) for h in hits], before, 'conversion alters nothing')
    groups = collections.OrderedDict()
    for h in hits:
        groups.setdefault(h['event_number'], collections.OrderedDict()) \
            .setdefault(h['particle_number'], []).append(document_of(kind, h))
        m.event('hit placed')
    want = sorted(frozen(sorted(
        frozen(sorted(map(frozen, v))) for v in parts.values()))
        for parts in groups.values())
    got = []
    for doc in docs:
        m.equal(set(doc), {'mc_events'}, 'branches of a spill')
        parts = []
        for ev in doc['mc_events']:
            m.equal(set(ev), {branch}, 'branches of an event', kind=kind)
            objs = ev[branch] if kind != 'primary' else [ev[branch]]
            parts.append(frozen(sorted(map(frozen, objs))))
        got.append(frozen(sorted(parts)))
    m.equal(sorted(got), want, 'each hit once under its event and particle',
            kind=kind)
    m.equal(len(docs), len(groups), 'a spill per event number')
    one = r.choice(hits)
    m.equal(one.get_maus_dict(name)[0], document_of(kind, one),
            'fields of a hit', kind=kind)
    if kind == 'primary':
        m.raises(IOError, lambda: Hit.get_maus_tree([one, one.deepcopy()],
                                                    name),
                 'two primaries of one particle refused')
        m.event('two hits of a primary')
    m.event('tree')
    m.event(kind)
    m.distinct(kind, sorted((h['event_number'], h['particle_number'],
                             h['station']) for h in hits))


def judge(m, kind, got, obj, event, spill, site):
    """The hit must carry the data of the document"""
    for k, v in SCALARS[kind].items():
        if v == 'energy':
            continue
        m.close(got[v], obj[k], 'scalar read: '+site, rel=1e-12, field=k)
    for k, pre in VECTORS[kind].items():
        if kind == 'primary' and k == 'momentum':
            continue
        for c in 'xyz':
            m.close(got[pre+c], obj[k][c], 'vector read: '+site, rel=1e-12,
                    field=k, component=c)
    m.equal(got['event_number'], event, 'event of the spill: '+site)
    m.equal(got['spill'], spill, 'spill number: '+site)
    mass = obj.get('mass', gen.MASS.get(abs(obj['particle_id']), 0.))
    m.close(got['mass'], mass, 'mass: '+site, rel=1e-12)
    if 'charge' not in obj:
        m.equal(got['charge'], CHARGE.get(obj['particle_id'], 0),
                'charge: '+site)
    p = [obj['momentum'][c] for c in 'xyz']
    if kind == 'primary':
        want_p = math.sqrt(max(obj['energy']**2-mass**2, 0.))
        size = math.sqrt(sum(v*v for v in p))
        m.close(got['energy'], obj['energy'], 'energy: '+site, rel=1e-12)
        m.close([got['p'+c] for c in 'xyz'], [v/size*want_p for v in p],
                'momentum along its direction: '+site, rel=1e-7, abs_=1e-5)
    else:
        m.close(got['energy'], math.sqrt(sum(v*v for v in p)+mass**2),
                'energy: '+site, rel=1e-12)


def quietly(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def contents(docs, kind):
    """[(document of the hit, index of the event, spill number)] in order"""
    branch = KINDS[kind][1]
    out = []
    for doc in docs:
        for i, ev in enumerate(doc.get('mc_events', [])):
            objs = ev.get(branch, [])
            for o in (objs if kind != 'primary' else [objs] if objs else []):
                out.append((o, i, doc['spill_number']))
    return out


def files(r, m):
    kind = r.choice(sorted(KINDS))
    name = KINDS[kind][0]
    hits = draw(r, m, kind, r.choice([0, 1, None]))
    before = [gen.state(h) for h in hits]
    path = os.path.join(m.scratch, 'out.json')
    b = Bunch.new_from_hits(hits) if hits else Bunch()
    if r.random() < .5:
        b.hit_write_builtin(name, path)
    else:
        Bunch.hit_write_builtin_from_dict({0: b}, name, path)
    m.equal([gen.state(h) for h in hits], before, 'writing alters nothing')
    # read through another handle: all of it must be there already
    lines = open(path).read().split('\n')
    m.equal(lines.pop(), '', 'last document is complete')
    docs = []
    for line in lines:
        ok, doc = m.quiet(lambda: json.loads(line), 'a document per line')
        if ok:
            docs.append(doc)
    m.equal(len(docs), len({h['event_number'] for h in hits}),
            'one document per spill')
    m.equal([d.get('spill_number') for d in docs], list(range(len(docs))),
            'spills are numbered')
    m.check(all(d.get('maus_event_type') == 'Spill' for d in docs),
            'documents are spills')
    found = contents(docs, kind)
    m.equal(sorted(frozen(o) for o, _, _ in found),
            sorted(frozen(document_of(kind, h)) for h in hits),
            'every hit is in the file once', kind=kind)
    tracks, events = {}, {}
    for h in hits:
        tracks.setdefault((h['event_number'], h['particle_number']),
                          []).append(frozen(document_of(kind, h)))
    for o, ev, sp in found:
        events.setdefault((sp, ev), []).append(frozen(o))
    m.equal(sorted(events.values()), sorted(tracks.values()),
            'hits of a particle are together and in order', kind=kind)
    got = quietly(lambda: Bunch.new_from_read_builtin(name, path))
    if m.equal(len(got), len(found), 'every hit read back', kind=kind):
        for h, (o, ev, sp) in zip(got, found):
            judge(m, kind, h, o, ev, sp, 'own file')
    m.event('written')
    m.event(kind)
    m.distinct('file', kind, len(docs), len(hits))


def obj(r, kind):
    pid = r.choice(sorted(CHARGE))
    d = gen.hit_dict(r, pids=[13])
    out = {k: {c: d.get(v+c, 0.) for c in 'xyz'}
           for k, v in VECTORS[kind].items()}
    for k, v in SCALARS[kind].items():
        out[k] = d[v]
    out['particle_id'] = pid
    if 'mass' in out:
        out['mass'] = gen.MASS[abs(pid)]
        out['charge'] = float(CHARGE[pid])
    if 'energy' in out:
        out['energy'] = gen.MASS[abs(pid)]+r.uniform(1, 300)
    if r.random() < .3:
        out['random_seed'] = 7         # further fields are not ours
    return out


def foreign(r, m):
    docs, lines = [], []
    for number in range(r.randint(0, 4)):
        events = []
        for _ in range(r.randint(0, 4)):
            ev = {}
            for kind, (_, branch) in KINDS.items():
                if r.random() < .2:
                    m.event('missing branch')
                elif kind == 'primary':
                    ev[branch] = obj(r, kind)
                else:
                    ev[branch] = [obj(r, kind)
                                  for _ in range(r.randint(0, 3))]
            events.append(ev)
        doc = {'maus_event_type': 'Spill', 'mc_events': events,
               'spill_number': r.choice([number, number+100])}
        docs.append(doc)
        lines.append(json.dumps(doc))
        if r.random() < .4:
            lines.append(r.choice(['[]', '{"maus_event_type": "JobHeader"}',
                                   '{}', '{"maus_event_type": "Spill", '
                                   '"spill_number": 3}',
                                   '{"maus_event_type": "Spill", "mc_ev', '',
                                   'not a document']))
            if lines[-1][:1] not in '{[' or lines[-1][-1:] not in '}]':
                m.event('broken line')
    if docs and r.random() < .2:
        ev = {'primary': obj(r, 'primary')}
        ev['primary']['particle_id'] = 987654321
        ev['primary']['energy'] = 200.
        docs[-1]['mc_events'].append(ev)
        lines = [json.dumps(d) for d in docs]
        m.event('unknown pid')
    path = os.path.join(m.scratch, 'foreign.json')
    with open(path, 'w') as out:
        out.write('\n'.join(lines)+('\n' if r.random() < .7 else ''))
    for kind in KINDS:
        name = KINDS[kind][0]
        found = contents(docs, kind)
        how = r.choice(['bunch', 'file', 'list', 'factory'])
        if how == 'bunch':
            got = quietly(lambda: list(Bunch.new_from_read_builtin(name,
                                                                   path)))
        elif how == 'file':
            got = quietly(lambda: Bunch.read_maus_json_file(
                path, list_of_maus_types=[name]))
        elif how == 'list':
            with open(path) as handle:
                got = quietly(lambda: Hit.new_list_from_maus_json(name,
                                                                  handle))
        else:
            got = []
            with open(path) as handle:
                fac = factory.MausJsonHitFactory(handle, name)
                while True:
                    try:
                        got.append(quietly(fac.make_hit))
                    except BadEventError:
                        break
        if m.equal(len(got), len(found), 'exactly the hits of the documents',
                   kind=kind, how=how):
            for h, (o, ev, sp) in zip(got, found):
                judge(m, kind, h, o, ev, sp, how)
        m.event(kind)
    both = r.sample(sorted(KINDS), r.randint(2, 3))
    got = quietly(lambda: Bunch.read_maus_json_file(
        path, list_of_maus_types=[KINDS[k][0] for k in both]))
    found = [(k, f) for k in both for f in contents(docs, k)]
    if m.equal(len(got), len(found), 'hits of all requested types',
               kinds=both):
        for h, (k, (o, ev, sp)) in zip(got, found):
            judge(m, k, h, o, ev, sp, 'several types')
    m.event('several types')
    m.event('foreign document')
    m.distinct('foreign', [[sorted(e) for e in d['mc_events']]
                           for d in docs])


# -- spill trees with the interface of the MAUS ROOT classes ----------------
class Node(object):
    """Answers Get<Name>() and lower case methods from its fields"""
    def __init__(self, **fields):
        self.__dict__['fields'] = fields

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        key = name[3:] if name.startswith('Get') else name
        if key not in self.fields:
            raise AttributeError(name)
        return lambda: self.fields[key]


class Vector(object):
    def __init__(self, v):
        self.v = v

    def x(self):
        return self.v[0]

    def y(self):
        return self.v[1]

    def z(self):
        return self.v[2]


class Data(object):
    spill = None

    def GetSpill(self):
        return self.spill


class Tree(object):
    def __init__(self, spills, holder=None):
        self.spills = spills
        self.holder = holder

    def SetBranchAddress(self, name, data):
        self.data = data

    def GetEntries(self):
        return len(self.spills)

    def GetEntry(self, i):
        # past the end a tree reads nothing and leaves the object as it is
        if 0 <= i < len(self.spills) and (self.holder is None
                                          or self.holder.open):
            self.data.spill = self.spills[i]
            return 1
        return 0


class File(object):
    """A ROOT file: closed ones must not be read"""
    disk = {}
    opened = []

    def __init__(self, name, mode='READ'):
        self.name = name
        self.open = True
        File.opened.append((name, mode, self))

    def Get(self, name):
        if name != 'Spill' or not self.open:
            return None
        return Tree(File.disk[self.name], self)

    def Close(self):
        self.open = False


class FakeRoot(object):
    class MAUS(object):
        Data = Data
    TFile = File


def vec(d, pre):
    return Vector([d[pre+c] for c in 'xyz'])


ROOT_KINDS = ['virtual_hit', 'step', 'primary', 'scifi_trackpoint',
              'scifi_and_tof']
UNKNOWN = 987654321


def tof_event(r, m):
    """A time of flight event, and the time between its two stations"""
    fields, times = {}, []
    for branch, array, clock in (('SpacePoint', 'SpacePointArray', 'Time'),
                                 ('SlabHit', 'SlabHitArray', 'RawTime'),
                                 ('Digit', 'DigitArray', 'LeadingTime')):
        lists = []
        for tof in '01':
            lists.append([r.uniform(0, 100)
                          for _ in range(r.choice([0, 1, 1, 2, 3]))])
        fields['TOFEvent'+branch] = Node(**{
            'TOF%d%s' % (i, array): [Node(**{clock: t}) for t in lists[i]]
            for i in (0, 1)})
        if lists[0] and lists[1]:
            if branch == 'SpacePoint':
                times.append((branch, lists[1][0]-lists[0][0]))
            else:
                times.append((branch, math.fsum(lists[1])/len(lists[1])
                              - math.fsum(lists[0])/len(lists[0])))
    if times:
        m.event('time from '+times[0][0])
    else:
        m.event('no time')
    return Node(**fields), times[0][1] if times else None


def spill_tree(r, m, cut):
    """Spills, and for each kind of hit what has to be read from them"""
    spills = []
    want = {kind: [] for kind in ROOT_KINDS}
    for s in range(r.randint(0, 4)):
        number = s*3+1
        events, recon = [], []
        for kind in ROOT_KINDS:
            want[kind].append([])
        for e in range(r.randint(0, 3)):
            where = dict(spill=number, event_number=e)
            virt, tracks = [], []
            for _ in range(r.randint(0, 3)):
                d = gen.hit_dict(r, pids=sorted(CHARGE))
                d['charge'] = float(CHARGE[d['pid']])
                if r.random() < .2:     # another table of masses
                    d['mass'] *= r.uniform(.9, 1.1)
                    d['energy'] = math.sqrt(d['mass']**2+sum(
                        d['p'+v]**2 for v in 'xyz'))
                virt.append(Node(
                    Position=vec(d, ''), Momentum=vec(d, 'p'),
                    BField=vec(d, 'b'), EField=vec(d, 'e'),
                    ParticleId=d['pid'], StationId=d['station'],
                    TrackId=d['particle_number'], Time=d['t'],
                    Mass=d['mass'], Charge=d['charge'],
                    ProperTime=d['proper_time'],
                    PathLength=d['path_length']))
                w = {k: d[k] for k in d if k not in
                     ('sx', 'sy', 'sz', 'e_dep', 'local_weight', 'status')}
                want['virtual_hit'][-1].append(dict(w, **where))
            for t in range(r.randint(0, 2)):
                pid = r.choice(sorted(CHARGE))
                odd = r.random() < .1
                if odd:
                    m.event('unknown root pid')
                steps = []
                for i in range(r.randint(0, 3)):
                    d = gen.hit_dict(r, pids=[pid])
                    steps.append(Node(
                        Position=vec(d, ''), Momentum=vec(d, 'p'),
                        BField=vec(d, 'b'), EField=vec(d, 'e'),
                        Spin=vec(d, 's'), Time=d['t'],
                        ProperTime=d['proper_time'],
                        PathLength=d['path_length']))
                    w = {k: d[k] for k in d if k not in
                         ('e_dep', 'local_weight', 'status')}
                    w['charge'] = float(CHARGE[pid])
                    if odd:
                        w.update(pid=UNKNOWN, mass=0., charge=0.,
                                 energy=math.sqrt(sum(d['p'+v]**2
                                                      for v in 'xyz')))
                    want['step'][-1].append(dict(
                        dict(w, **where), station=i, particle_number=t+5))
                tracks.append(Node(Steps=steps, TrackId=t+5,
                                   ParticleId=UNKNOWN if odd else pid))
            d = gen.hit_dict(r, pids=sorted(CHARGE))
            w = {k: d[k] for k in ('x', 'y', 'z', 't', 'px', 'py', 'pz',
                                   'energy', 'pid', 'mass')}
            w['charge'] = float(CHARGE[d['pid']])
            given = dict(d)
            if r.random() < .4:
                # the energy of a primary rules over the size of its momentum
                m.event('energy rules')
                k = r.uniform(.5, 2)
                for v in ('px', 'py', 'pz'):
                    given[v] = d[v]*k
            if r.random() < .1:
                m.event('unknown root pid')
                given['pid'] = w['pid'] = UNKNOWN
                size = math.sqrt(sum(d['p'+v]**2 for v in 'xyz'))
                w.update({'p'+v: d['p'+v]*d['energy']/size for v in 'xyz'},
                         mass=0., charge=0.)
            want['primary'][-1].append(dict(w, **where))
            primary = Node(Position=vec(given, ''), Momentum=vec(given, 'p'),
                           ParticleId=given['pid'], Energy=d['energy'],
                           Time=d['t'])
            events.append(Node(VirtualHits=virt, Tracks=tracks,
                               Primary=primary))
            fits = []
            tof, time = tof_event(r, m)
            for t in range(r.randint(0, 2)):
                points = []
                chance = r.choice([0., r.random(), 1.])
                for _ in range(r.randint(0, 3)):
                    d = gen.hit_dict(r)
                    tr, st, pl = r.randint(0, 1), r.randint(1, 5), \
                        r.randint(0, 2)
                    points.append(Node(tracker=tr, station=st, plane=pl,
                                       pos=vec(d, ''), mom=vec(d, 'p')))
                    if cut > 0. and chance < cut:
                        m.event('poor fit')
                        continue
                    w = {k: d[k] for k in ('x', 'y', 'z', 'px', 'py', 'pz')}
                    w.update(where, particle_number=t,
                             station=90000+100*tr+10*st+pl)
                    want['scifi_trackpoint'][-1].append(dict(w, t=0.))
                    if time is not None:
                        want['scifi_and_tof'][-1].append(dict(w, t=time))
                fits.append(Node(P_value=chance, scifitrackpoints=points))
            recon.append(Node(SciFiEvent=Node(scifitracks=fits),
                              TOFEvent=tof))
        spills.append(Node(SpillNumber=number, MCEvents=events,
                           ReconEvents=recon))
    return spills, want


@contextlib.contextmanager
def fake_root(cut):
    """ROOT and MAUS as if they were there"""
    saved = root_module.ROOT, recon_module.ROOT, bunch_module.ROOT
    had = config.PACKAGES['maus'], config.PACKAGES['root']
    recon = factory.MausRootReconHitFactory
    was = recon.sf_p_value_cut
    root_module.ROOT = recon_module.ROOT = bunch_module.ROOT = FakeRoot
    config.PACKAGES['maus'] = config.PACKAGES['root'] = True
    recon.sf_p_value_cut = cut
    known = list(Hit.file_types())
    Hit.file_types()[:] = known+['maus_root_'+k for k in ROOT_KINDS]
    try:
        yield
    finally:
        root_module.ROOT, recon_module.ROOT, bunch_module.ROOT = saved
        config.PACKAGES['maus'], config.PACKAGES['root'] = had
        recon.sf_p_value_cut = was
        Hit.file_types()[:] = known


def class_of(kind):
    return factory.MausRootReconHitFactory if kind.startswith('scifi') \
        else factory.MausRootHitFactory


def judge_root(m, got, want, site, **what):
    if m.equal(len(got), len(want), 'exactly the hits of the spill tree: '
               + site, **what):
        for h, w in zip(got, want):
            for k, v in w.items():
                m.close(h[k], v, 'data of a hit of the spill tree: '+site,
                        rel=1e-9, abs_=1e-7, variable=k, **what)


def root_trees(r, m):
    Hit.clear_global_weights()
    kind = r.choice(ROOT_KINDS)
    cut = r.choice([-1., -1., r.random()])
    spills, wants = spill_tree(r, m, cut)
    want = [w for s in wants[kind] for w in s]
    tree = Tree(spills)
    name = 'maus_root_'+kind
    entry = r.choice([0, 0, 1, 2])
    with fake_root(cut):
        if kind.startswith('scifi'):
            fac = factory.MausRootReconHitFactory(tree, name)
            got = quietly(lambda: list(fac.hit_generator()))
        elif r.random() < .5:
            got = quietly(lambda: Hit.new_list_from_maus_root(name, tree))
        else:
            fac = factory.MausRootHitFactory(tree, name)
            got = []
            while True:
                try:
                    got.append(quietly(fac.make_hit))
                except BadEventError:
                    break
        keep = (lambda h: h['x'] > 0)
        fac = class_of(kind)(tree, name, 0, keep)
        chosen = quietly(lambda: list(fac.hit_generator()))
        later = quietly(lambda: list(class_of(kind)(tree, name, entry)
                                     .hit_generator()))
        m.raises(KeyError, lambda: class_of(kind)(tree, name[:-1]),
                 'unknown format refused')
    m.equal([h['x'] for h in chosen], [w['x'] for w in want if w['x'] > 0],
            'filter on a spill tree', kind=kind)
    judge_root(m, got, want, 'tree', kind=kind)
    judge_root(m, later, [w for s in wants[kind][entry:] for w in s],
               'from a later entry', kind=kind)
    m.event('root tree')
    m.event('root '+{'virtual_hit': 'virtual', 'scifi_trackpoint': 'scifi'
                     }.get(kind, kind))
    m.distinct('root', kind, len(want), len(spills))


def root_files(r, m):
    """Files of spills: several files, kinds, limits and filters"""
    Hit.clear_global_weights()
    cut = r.choice([-1., r.random()])
    File.disk, File.opened = {}, []
    wants = []
    base = os.path.join(m.scratch, 'spills')
    for i in range(r.randint(1, 3)):
        spills, want = spill_tree(r, m, cut)
        name = '%s_%d.root' % (base, i)
        open(name, 'w').close()
        File.disk[name] = spills
        wants.append((name, want))
    keep = r.choice([None, lambda h: h['x'] > 0])

    def hits_of(want, kinds):
        out = [w for k in kinds for s in want[k] for w in s]
        return [w for w in out if keep is None or w['x'] > 0]
    name, one = r.choice(wants)
    kinds = r.sample(ROOT_KINDS, r.randint(1, 3))
    every = hits_of(one, kinds)
    limit = r.choice([-1, 0, 1, len(every), len(every)+3,
                      r.randint(0, len(every)+1)])
    with fake_root(cut):
        got = quietly(lambda: Bunch.read_maus_root_file(
            name, limit, ['maus_root_'+k for k in kinds], keep))
        m.check(not any(f.open for _, _, f in File.opened), 'file is closed')
        m.check(all(mode == 'READ' for _, mode, _ in File.opened),
                'file is opened to be read')
        judge_root(m, got, every[:limit] if limit >= 0 else every,
                   'kinds of a file', kinds=kinds, limit=limit)
        if r.random() < .3:
            m.event('every kind')
            got = quietly(lambda: Bunch.read_maus_root_file(
                name, test_function=keep))
            m.equal(sorted(h['x'] for h in got), sorted(
                w['x'] for w in hits_of(one, ROOT_KINDS)),
                'every kind is the default')
        kind = r.choice(ROOT_KINDS)
        every = [w for _, want in wants for w in hits_of(want, [kind])]
        limit = r.choice([-1, 0, len(every), r.randint(0, len(every)+1)])
        got = quietly(lambda: Bunch.new_from_read_builtin(
            'maus_root_'+kind, base+'_*.root', keep or (lambda h: True),
            limit))
    judge_root(m, list(got), every[:limit] if limit >= 0 else every,
               'bunch from files', kind=kind, limit=limit)
    if len(wants) > 1:
        m.event('several root files')
    if 0 <= limit < len(every):
        m.event('limited')
    m.event('root file')
    m.distinct('root file', kind, kinds, len(every), limit)


SCENARIOS = [('trees', trees, 700, 12000),
             ('files', files, 450, 8000),
             ('foreign', foreign, 400, 7000),
             ('root_trees', root_trees, 500, 8000),
             ('root_files', root_files, 300, 6000)]
