"""P38: tracking through MAUS, with a simulation that notes what it is given."""
import contextlib
import copy
import json
import math
import pickle
import types

from xmon import gen
from xboa.common import config
from xboa.hit import Hit
from xboa.tracking import MAUSTracking
import xboa.tracking._maus_tracking as module

ID = 'P38'
RULE = ('histories of calls to MAUSTracking with a stand-in for the MAUS '
        'library that notes every document and every start and stop, and '
        'answers with any number of virtual hits of any species; distinct by '
        'history')
REQUIRED = {'tracking': 150, 'particle': 1500, 'virtual hit': 2500,
            'call': 400, 'one': 100, 'many': 200, 'no hits': 40,
            'no virtual hits': 100, 'pickled': 50, 'restarted': 30,
            'not started': 40, 'started': 60, 'refused': 20,
            'simulation failed': 20}
CHARGE = {11: -1, -11: 1, 13: -1, -13: 1, 211: 1, -211: -1, 321: 1, -321: -1,
          2212: 1, -2212: -1, 22: 0, 2112: 0, 111: 0, 12: 0, -14: 0}


class Maus(object):
    """Stand-in for maus_cpp"""
    def __init__(self, r):
        self.r = r
        self.running = r.random() < .5
        self.log = []
        self.asked = []
        self.answers = []
        self.fail = False
        self.globals = types.SimpleNamespace(
            has_instance=self.has_instance, birth=self.birth,
            death=self.death)
        self.simulation = types.SimpleNamespace(track_particles=self.track)

    def has_instance(self):
        return self.running

    def birth(self, cards):
        if self.running:
            raise RuntimeError('MAUS is running already')
        if not isinstance(cards, str):
            raise TypeError('datacards have to be a string')
        self.log.append(('birth', cards))
        self.running = True

    def death(self):
        if not self.running:
            raise RuntimeError('MAUS is not running')
        self.log.append(('death',))
        self.running = False

    def track(self, text):
        if self.fail:
            raise RuntimeError('simulation failed')
        particles = json.loads(text)
        self.asked.append(particles)
        out = []
        for p in particles:
            event = {'primary': copy.deepcopy(p['primary'])}
            if self.r.random() < .85:
                event['virtual_hits'] = [
                    virtual(self.r, i) for i in range(self.r.randint(0, 4))]
            out.append(event)
        self.answers.append(copy.deepcopy(out))
        return json.dumps(out)


def virtual(r, i):
    pid = r.choice(sorted(CHARGE))
    d = gen.hit_dict(r, pids=[13])
    return {'position': {k: d[k] for k in 'xyz'},
            'momentum': {k: d['p'+k] for k in 'xyz'},
            'particle_id': pid, 'time': d['t'], 'track_id': r.randint(1, 9),
            'station_id': r.randint(-3, 200), 'proper_time': 1.,
            'path_length': 2., 'mass': gen.MASS[abs(pid)],
            'charge': CHARGE[pid]}


@contextlib.contextmanager
def with_maus(maus):
    had = config.PACKAGES['maus']
    old = module.__dict__.get('maus_cpp')
    config.PACKAGES['maus'] = True
    module.maus_cpp = maus
    try:
        yield
    finally:
        config.PACKAGES['maus'] = had
        if old is None:
            del module.maus_cpp
        else:
            module.maus_cpp = old


def cards(r):
    value = {'verbose_level': r.randint(0, 5), 'name': 'a "quoted" name',
             'list': [1, 2.5, None, True]}
    kind = r.choice(['none', 'none', 'dict', 'list', 'text'])
    return {'none': None, 'dict': value, 'list': [value],
            'text': json.dumps(value)}[kind]


def particles(r, m):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
        d = gen.hit_dict(r, pids=sorted(CHARGE))
        d['charge'] = float(CHARGE[d['pid']])
        if r.random() < .2:
            d['t'] = gen.any_float(r)
        out.append(gen.make_hit(d))
        m.event('particle')
    return out


def judge_primary(m, asked, hit, seed):
    m.equal(set(asked), {'primary'}, 'one primary per particle')
    p = asked['primary']
    for k in 'xyz':
        m.equal(p['position'][k], hit[k], 'position handed over', axis=k)
        m.equal(p['momentum'][k], hit['p'+k], 'momentum handed over', axis=k)
    m.equal(p['particle_id'], hit['pid'], 'species handed over')
    m.equal(p['energy'], hit['energy'], 'energy handed over')
    m.equal(p['time'], hit['t'], 'time handed over')
    m.equal(p['random_seed'], seed, 'each particle has the next seed')


def judge_hits(m, got, hit, event, answer, spill):
    virt = answer.get('virtual_hits', [])
    if 'virtual_hits' not in answer or not virt:
        m.event('no virtual hits')
    if not m.equal(len(got), 1+len(virt), 'the particle, then each crossing'):
        return
    first = got[0]
    for k in ('x', 'y', 'z', 'px', 'py', 'pz', 't', 'energy', 'pid', 'mass',
              'charge'):
        m.close(first[k], hit[k], 'the particle comes back first', rel=1e-12,
                variable=k)
    m.equal([first['event_number'], first['spill'], first['station'],
             first['particle_number']], [event, spill, -1, 1],
            'identity of the particle')
    for h, v in zip(got[1:], virt):
        m.event('virtual hit')
        for k in 'xyz':
            m.equal(h[k], v['position'][k], 'position of a crossing', axis=k)
            m.equal(h['p'+k], v['momentum'][k], 'momentum of a crossing',
                    axis=k)
        mass = gen.MASS[abs(v['particle_id'])]
        m.equal([h['pid'], h['t'], h['station'], h['particle_number'],
                 h['event_number'], h['spill'], h['mass'], h['charge']],
                [v['particle_id'], v['time'], v['station_id'], v['track_id'],
                 event, spill, mass, CHARGE[v['particle_id']]],
                'identity of a crossing')
        m.close(h['energy'], math.sqrt(mass**2+sum(
            v['momentum'][k]**2 for k in 'xyz')), 'energy of a crossing',
            rel=1e-12)
    return


def image(lists):
    return [[gen.state(h) for h in hits] for hits in lists]


def history(r, m):
    Hit.clear_global_weights()
    maus = Maus(r)
    deck = cards(r)
    kept = copy.deepcopy(deck)
    seed = r.choice([0, 0, r.randint(1, 10**6)])
    was = maus.running
    m.event('tracking')
    steps = []
    with with_maus(maus):
        track = MAUSTracking(deck, seed) if seed or r.random() < .5 \
            else MAUSTracking(datacards=deck)
        if deck is None:
            m.event('not started')
            m.equal(maus.log, [], 'MAUS is left alone without datacards')
        else:
            m.event('restarted' if was else 'started')
            m.equal([l[0] for l in maus.log],
                    ['death', 'birth'] if was else ['birth'],
                    'MAUS is started afresh')
            m.equal(json.loads(maus.log[-1][1]),
                    json.loads(deck) if isinstance(deck, str) else deck,
                    'datacards handed over')
        m.equal(deck, kept, 'datacards are left alone')
        m.equal((track.random_seed, track.spill, track.last), (seed, 0, []),
                'nothing is tracked yet')
        spill = 0
        for _ in range(r.randint(1, 5)):
            if r.random() < .15:
                m.event('simulation failed')
                maus.fail = True
                hits = particles(r, m)
                before = image([hits])
                m.raises(RuntimeError, lambda: track.track_many(hits),
                         'failure of the simulation is reported')
                m.equal(image([hits]), before, 'particles are left alone')
                maus.fail = False
                # the particles were not tracked: go on from where it is
                seed, spill = track.random_seed, track.spill
            hits = particles(r, m)
            one = len(hits) == 1 and r.random() < .7
            given = hits if r.random() < .5 else tuple(hits)
            before = image([hits])
            got = [track.track_one(hits[0])] if one \
                else track.track_many(given)
            m.event('call')
            m.event('one' if one else 'many' if hits else 'no hits')
            steps.append((one, len(hits)))
            m.equal(image([hits]), before, 'particles are left alone')
            asked, answer = maus.asked[-1], maus.answers[-1]
            if m.equal(len(asked), len(hits), 'every particle is tracked') \
                    and m.equal(len(got), len(hits), 'a list per particle'):
                for i, hit in enumerate(hits):
                    judge_primary(m, asked[i], hit, seed+i)
                    judge_hits(m, got[i], hit, i, answer[i], spill)
            seed += len(hits)
            spill += 1
            m.equal(track.random_seed, seed, 'seeds go up by one a particle')
            m.equal(track.spill, spill, 'spills go up by one a call')
            m.equal(image(track.last), image(got), 'last tracks are kept')
            if r.random() < .2:
                m.event('pickled')
                del maus.log[:]
                was = maus.running
                track = pickle.loads(pickle.dumps(track))
                m.equal((track.random_seed, track.spill), (seed, spill),
                        'a copy goes on from there')
                m.equal(image(track.last), image(got),
                        'a copy has the last tracks')
                if deck is None:
                    m.equal(maus.log, [], 'a copy leaves MAUS alone')
                else:
                    m.equal([l[0] for l in maus.log],
                            ['death', 'birth'] if was else ['birth'],
                            'a copy starts MAUS afresh')
                    m.equal(json.loads(maus.log[-1][1]),
                            json.loads(deck) if isinstance(deck, str)
                            else deck, 'a copy has the datacards')
    m.note((deck is None, steps))
    m.distinct(type(deck).__name__, steps, seed)


def refused(r, m):
    m.event('refused')
    had = config.PACKAGES['maus']
    config.PACKAGES['maus'] = False
    try:
        m.raises(ImportError, lambda: MAUSTracking(cards(r), r.randint(0, 9)),
                 'no tracking without MAUS')
    finally:
        config.PACKAGES['maus'] = had
    m.distinct(r.random())


SCENARIOS = [('history', history, 300, 12000),
             ('refused', refused, 30, 30)]
