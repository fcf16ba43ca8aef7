"""The placement simulation behind P06-P12.

The simulator owns the random source, so it sees the state of the placement
between any two random draws, and it decides their outcomes.  After every
change of that state the checks below are made against a model of its own:
the geometry of each room type (for synthetic types its specification, for
the library's types their tiles facing east), turned and moved with exact
integer arithmetic.
"""
import itertools

from sim.core import fail, Invalid

SMALL = ['castle.castle_wall_corner', 'castle.castle_wall_entry', 'castle.castle_wall_section', 'castle.wooden_bridge',
         'castle.castle_small_deis', 'castle.castle_wall_tower', 'dungeon.dungeon_walkway', 'dungeon.dungeon_walkway3',
         'dungeon.dungeon_stair2', 'dungeon.dungeon_2x2', 'egypt.stair', 'egypt.house_2x2', 'egypt.statue', 'egypt.stair_toplatform',
         'original.spawn_room', 'spacestation.station_right', 'spacestation.station_tube1', 'spacestation.station_tube3',
         'spacestation.station_uturn', 'spacestation.station_stair2']
LARGE = ['castle.castle_gate', 'castle.castle_gate_simple', 'castle.castle_large', 'castle.castle_flag_room',
         'castle.castle_wall_section_long', 'castle.castle_wall_section_long_damaged', 'castle.castle_wall_section_tjoint',
         'castle.castle_wall_section_x', 'dungeon.dungeon_junction', 'egypt.gate', 'egypt.house_2x2x3',
         'spacestation.station_flagroom', 'spacestation.station_ring', 'spacestation.station_ring_vertical',
         'spacestation.station_sbend', 'spacestation.station_sphere', 'spacestation.station_sphere_slice',
         'spacestation.station_tube3layered', 'spacestation.station_tubeX', 'spacestation.station_tubeX_variant',
         'spacestation.station_tube_jumpx', 'egypt.statue_cat']
CAPS = ['castle.castle_wall_end_cliff', 'castle.castle_wall_section_endcap', 'spacestation.station_endcap',
        'original.spawn_room', 'dungeon.dungeon_2x2', 'egypt.house_2x2']
PROC = ['AltarRoom', 'Corridor2way', 'Corridor4way', 'CrossingWalkways', 'DigitalRoom', 'FlatSpace', 'ImposingBlockRoom',
        'ImposingRingRoom', 'JumpCorridor3', 'JumpCorridorVertical', 'JumpCorridorVerticalCenter', 'MultiPlatform',
        'NLongCorridor', 'PlusPlatform', 'PoleRoom', 'SpawnRoom', 'Stair', 'TestRoom']
TYPES = ['hallway', 'hallway_jump', 'oriented', 'platform', 'platform_setpiece', 'stair', 'vertical', 'setpiece_small',
         'setpiece_medium', 'setpiece_large', 'hallway_setpiece', 'flagroom', 'endcap', 'unheard_of']
DIRS = ((1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0))          # east north west south


# -- exact geometry -----------------------------------------------------------
def rot(v, q):
    x, y, z = v
    for _ in range(q % 4):
        x, y = -y, x
    return (x, y, z)


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def about(v, q):
    """Turn a tile about the centre of the map."""
    return add(rot(sub(v, (16, 16, 0)), q), (16, 16, 0))


def tup(v):
    """A library vector as whole numbers; anything else is kept and will
    compare unequal."""
    return tuple(int(c) if c == int(c) else c for c in v)


def quarter(o):
    t = tup(o)
    if t not in DIRS:
        fail('orientation', 'a room or doorway faces %r', t)
    return DIRS.index(t)


def inside(v):
    return all(isinstance(c, int) and 0 <= c < 32 for c in v)


# -- scenarios ----------------------------------------------------------------
def gen_spec(rng):
    """A synthetic room type: tiles and doorways, some under random options."""
    n = rng.choice((1, 1, 2, 2, 3, 4, 6, 9))
    tiles = [(0, 0, 0)] if rng.random() < 0.85 else [(rng.randrange(-2, 3), rng.randrange(-2, 3), rng.randrange(0, 2))]
    while len(tiles) < n:
        d = rng.choice(DIRS + ((0, 0, 1), (0, 0, 1), (0, 0, -1)))
        t = add(rng.choice(tiles), d)
        if t not in tiles:
            tiles.append(t)
    nf = rng.choice((0, 0, 1, 2, 3))
    extra = []
    for _ in range(nf):
        e = []
        for _ in range(rng.choice((0, 1, 1, 2))):
            t = add(rng.choice(tiles + e), rng.choice(DIRS + ((0, 0, 1),)))
            if t not in tiles and t not in e and not any(t in x for x in extra):
                e.append(t)
        extra.append(e)
    every = tiles + [t for e in extra for t in e]
    cand = [(add(t, d), i) for t in tiles for i, d in enumerate(DIRS) if add(t, d) not in every]
    rng.shuffle(cand)
    k = rng.choice((1, 2, 2, 3, 4, 8, 0))
    doors, dflag = [], []
    for off, i in cand[:k]:
        doors.append([list(off), i])
        # a doorway some option opens (or closes)
        dflag.append(rng.choice([None] * 3 + ([rng.randrange(nf), -1 - rng.randrange(nf)] if nf else [])))
    return {'tiles': [list(t) for t in tiles], 'extra': [[list(t) for t in e] for e in extra], 'doors': doors, 'dflag': dflag,
            'type': rng.choice(TYPES)}


def gen_small(rng):
    """A one-tile room with a few doorways."""
    doors = rng.sample(range(4), rng.choice((1, 2, 2, 3, 4)))
    return {'tiles': [[0, 0, 0]], 'extra': [], 'doors': [[list(DIRS[i]), i] for i in doors], 'dflag': [None] * len(doors), 'type': rng.choice(TYPES)}


def gen_long(rng):
    """A room that needs a row, a column or a corner of tiles."""
    n = rng.choice((2, 3, 4, 5))
    d = rng.choice(((1, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1)))
    tiles = [[0, 0, 0]] + [[d[0] * i, d[1] * i, d[2] * i] for i in range(1, n)]
    doors = [[[-1, 0, 0], 2]]
    if rng.random() < 0.4:
        last = add(tuple(tiles[-1]), (1, 0, 0))
        doors.append([list(last), 0])
    return {'tiles': tiles, 'extra': [], 'doors': doors, 'dflag': [None] * len(doors), 'type': rng.choice(TYPES)}


def gen_cap(rng):
    while True:
        s = gen_spec(rng)
        if s['doors']:
            s['doors'], s['dflag'], s['extra'] = s['doors'][:1], [None], []
            return s


def gen_start(rng, specs, cat):
    kind = rng.random()
    if kind < 0.55:
        pos = [8, 8, 3]
    elif kind < 0.8:
        pos = [rng.randrange(3, 30), rng.randrange(3, 30), rng.randrange(0, 30)]
    else:
        pos = [rng.choice((0, 1, 2, 15, 16, 17, 30, 31)) for _ in range(3)]
    what = rng.choice(cat) if rng.random() < 0.5 else rng.choice(['p:' + rng.choice(PROC), 's:0' if specs else 'p:SpawnRoom'] +
                                                                (['m:spacestation.station_tube1'] if rng.random() < 0.1 else []))
    return {'what': what, 'pos': pos, 'o': rng.randrange(4), 'flags': [rng.random() < 0.5 for _ in range(5)]}


def gen(rng, tier, index):
    specs = [gen_spec(rng) for _ in range(rng.choice((0, 1, 2, 4, 8)))]
    caps = [gen_cap(rng) for _ in range(rng.choice((0, 1, 1, 2, 2, 5)))]
    fam = rng.random()
    cat = []
    if fam < 0.45:
        cat += ['p:' + x for x in rng.sample(PROC, rng.choice((1, 2, 4, 8, len(PROC))))]
    if specs and fam > 0.3:
        cat += ['s:%d' % i for i in range(len(specs))]
    big = rng.random()
    if not cat:
        cat += ['p:' + x for x in rng.sample(PROC, 3)]
    if big < (0.03 if tier == "quick" else 0.08):
        cat += ['m:' + x for x in rng.sample(SMALL, rng.choice((1, 2, 3)))]
    if tier == 'thorough' and big > 0.97:
        cat += ['m:' + x for x in rng.sample(LARGE, 2)]
    rng.shuffle(cat)
    many = 60 if tier == 'quick' else 200
    mirror = rng.choice((1, 2, 2, 4, 4))
    n = rng.choice((0, 1, 2, 3, 5, 8, 13, 20, 35, many))
    if any(c.startswith('m:') for c in cat):
        n = min(n, 6)
    phases = [{'rooms': n, 'cat': cat}]
    if rng.random() < 0.2:
        phases.append({'rooms': rng.choice((1, 4, 9)), 'cat': rng.sample(cat, rng.randrange(1, len(cat) + 1))})
    starts = [gen_start(rng, specs, cat)]
    if rng.random() < 0.15:
        starts.append(gen_start(rng, specs, cat))
    if rng.random() < 0.12:
        # a crowd: several starts around one place, so that doorways of different rooms lead to the same tiles
        specs = [gen_small(rng) for _ in range(3)] + [gen_long(rng) for _ in range(2)]
        cat = ['s:3', 's:4'] if rng.random() < 0.7 else ['s:3', 's:4', 's:0']
        at = rng.choice(([8, 8, 3], [8, 8, 31], [5, 20, 0]))
        k = rng.choice((3, 4, 6, 8))
        starts = [{'what': 's:%d' % rng.randrange(3), 'pos': [at[0] + i // 5 - 2, at[1] + i % 5 - 2, at[2]], 'o': rng.randrange(4), 'flags': [True]}
                  for i in rng.sample(range(25), k)]
        phases = [{'rooms': rng.choice((1, 3, 8, 20)), 'cat': cat}]
        n = phases[0]['rooms']
        mirror = rng.choice((1, 1, 2, 4))
    probe = [gen_start(rng, specs, cat) for _ in range(4)]
    if rng.random() < 0.15:
        # a room that its own copies collide with: of the tiles p and its image
        p, q = (rng.randrange(2, 29), rng.randrange(2, 29), rng.randrange(32)), rng.choice((2, 2, 2, 1))
        name = 's:%d' % len(specs)
        specs = specs + [{'tiles': [[0, 0, 0], list(sub(about(p, q), p))], 'extra': [], 'doors': [[[-1, 0, 0], 2]], 'dflag': [None],
                          'type': rng.choice(TYPES)}]
        probe.append({'what': name, 'pos': list(p), 'o': 0, 'flags': [True]})
        if rng.random() < 0.4:
            specs = specs + [{'tiles': [[0, 0, 0]], 'extra': [], 'doors': [[[1, 0, 0], 0]], 'dflag': [None], 'type': rng.choice(TYPES)}]
            starts = [{'what': 's:%d' % (len(specs) - 1), 'pos': list(sub(p, (1, 0, 0))), 'o': 0, 'flags': [True]}]
            phases = [{'rooms': 4, 'cat': [name]}]
            n = 4
            mirror = rng.choice((2, 4, 4))
    capk = ['c:%d' % i for i in range(len(caps))]
    if n <= 5 and rng.random() < 0.08:
        capk += ['m:' + x for x in rng.sample(CAPS if tier == 'thorough' else CAPS[2:4], rng.choice((1, 1, 2)))]
    return {
        'draw': n <= 8 and rng.random() < 0.3, 'mirror': mirror, 'starts': starts, 'phases': phases, 'caps': capk, 'specs': specs, 'capspecs': caps,
        'probe': probe, 'debug': rng.random() < 0.12,
        'rng': {'seed': rng.randrange(2 ** 32), 'mode': rng.choice(('natural', 'natural', 'mixed', 'mixed', 'low', 'high', 'mid', 'runs')),
                'p': rng.choice((0.05, 0.2, 0.5, 0.9))},
    }


# -- room types -----------------------------------------------------------------
class Types:
    """Room classes by name, and the model of their geometry."""

    def __init__(self, sc):
        self.sc = sc
        self.cls = {}
        self.spec = {}
        self.cache = {}

    def __getitem__(self, name):
        if name not in self.cls:
            self.cls[name] = self.make(name)
        return self.cls[name]

    def make(self, name):
        import redeclipse.prefabs as P
        kind, what = name.split(':', 1)
        if kind == 'p':
            return getattr(P, what)
        if kind == 'm':
            mod, n = what.split('.')
            return getattr(getattr(P, mod), n)
        specs = self.sc['specs' if kind == 's' else 'capspecs']
        if int(what) >= len(specs):
            raise Invalid()
        spec = specs[int(what)]
        cls = synthetic(name, spec)
        self.spec[cls] = spec
        return cls

    def flags(self, cls, want):
        base = getattr(cls, '_randflags', None)
        return None if base is None else [bool(want[i % len(want)]) for i in range(len(base))]

    def make_room(self, start):
        from redeclipse.vector import CoarseVector
        from redeclipse.vector.orientations import CARDINALS
        cls = self[start['what']]
        kw = {'orientation': CARDINALS[start['o'] % 4]}
        fl = self.flags(cls, start['flags'] or [True])
        if fl is not None:
            kw['randflags'] = fl
        return cls(pos=CoarseVector(*start['pos']), **kw)

    def all_flags(self, cls, prev):
        """Every set of random options that may be drawn after `prev`."""
        base = getattr(cls, '_randflags', None)
        if base is None:
            return [None]
        if prev.__class__ is cls:
            p = list(prev._randflags)
            return [tuple(v != (i == k) for i, v in enumerate(p)) for k in range(len(p))]
        return list(itertools.product((False, True), repeat=len(base)))

    def rel(self, cls, flags):
        """Tiles and doorways of a type facing east, relative to its position."""
        key = (cls, None if flags is None else tuple(bool(f) for f in flags))
        if key not in self.cache:
            if cls in self.spec:
                self.cache[key] = spec_geometry(self.spec[cls], key[1])
            else:
                from redeclipse.vector import CoarseVector
                from redeclipse.vector.orientations import EAST
                kw = {} if flags is None else {'randflags': list(flags)}
                r = cls(pos=CoarseVector(100, 100, 100), orientation=EAST, **kw)
                at = tup(r.pos)
                self.cache[key] = ([sub(tup(p), at) for p in r.get_positions()],
                                   [(sub(tup(d['offset']), at), quarter(d['orientation'])) for d in r.get_doorways()])
        return self.cache[key]


def spec_geometry(spec, flags):
    tiles = [tuple(t) for t in spec['tiles']]
    fl = flags or ()
    for f, e in zip(fl, spec['extra']):
        if f:
            tiles += [tuple(t) for t in e]
    doors = []
    for (off, i), df in zip(spec['doors'], spec['dflag']):
        if df is not None and df < 0 and -1 - df < len(fl) and fl[-1 - df]:
            continue
        if df is not None and df >= 0 and df < len(fl) and not fl[df]:
            continue
        doors.append((tuple(off), i))
    return tiles, doors


def synthetic(name, spec):
    from redeclipse.prefabs import Room
    from redeclipse.vector import CoarseVector, FineVector
    from redeclipse.vector.orientations import CARDINALS, EAST

    class Synthetic(Room):
        def __init__(self, pos, orientation=EAST, randflags=None):
            self.pos = CoarseVector(*pos)
            self.orientation = orientation
            if randflags:
                self._randflags = randflags

        def _geo(self):
            return spec_geometry(spec, getattr(self, '_randflags', None))

        def _get_positions(self):
            return [CoarseVector(*t) for t in self._geo()[0]]

        def _get_doorways(self):
            return [{'orientation': CARDINALS[i], 'offset': CoarseVector(*o)} for o, i in self._geo()[1]]

        def render(self, world, xmap):
            for t in self._geo()[0]:
                for k in ((0, 0, 0), (7, 0, 0), (7, 7, 7), (1, 2, 3)):
                    self.x('cube', world, FineVector(*[8 * a + b for a, b in zip(t, k)]), tex=5)
    Synthetic.__name__ = 'Synth_' + name.replace(':', '')
    Synthetic.name = Synthetic.__name__
    Synthetic.room_type = spec['type']
    if spec['extra']:
        Synthetic._randflags = tuple(True for _ in spec['extra'])
    return Synthetic


# -- the simulation ----------------------------------------------------------------
class World:
    """The placement under observation."""

    def __init__(self, sc, ctx, want):
        from redeclipse.upm import UnusedPositionManager
        self.sc, self.ctx, self.want = sc, ctx, want
        self.types = Types(sc)
        self.mirror = sc['mirror']
        self.qs = {1: (0,), 2: (0, 2), 4: (0, 1, 2, 3)}[self.mirror]
        self.upm = UnusedPositionManager(256, mirror=self.mirror)
        self.known = 0              # rooms seen so far
        self.tiles = {}             # tile -> room index, the model's own
        self.geo = []               # per room: (room, tiles, doors)
        self.offers = set()         # doors on offer: (tile, facing, room index)
        self.given_up = set()
        self.nstart = 0
        self.seen = None
        self.links_seen = 0
        self.catalogue = []
        self.phase = None
        self.steps = 0
        self.ids = {}
        self.pairs = {}             # room index -> indices it is joined to

    # model
    def geometry(self, room):
        cls = room.__class__
        fl = getattr(room, '_randflags', None)
        if fl is not None and getattr(cls, '_randflags', None) is None:
            fl = None
        rt, rd = self.types.rel(cls, fl)
        q = quarter(room.orientation)
        at = tup(room.pos)
        return [add(at, rot(t, q)) for t in rt], [(add(at, rot(o, q)), (i + q) % 4) for o, i in rd]

    def verdict(self, tiles, doors):
        """Whether a room with these tiles and doorways can be placed."""
        taken = set()
        worst = None
        for q in self.qs:
            mine = [about(t, q) for t in tiles]
            for t in mine:
                if t in self.tiles or t in taken:
                    return 'collides'
                if not inside(t):
                    worst = 'outside'
            taken.update(mine)
            if worst is None and any(not inside(about(o, q)) for o, i in doors):
                worst = 'doorway outside'
        return worst

    def usable(self, door, prev, cls):
        """True when a room of this type fits the doorway whatever options are
        drawn, in at least one orientation."""
        off, face, _ = door
        target = sub(off, DIRS[face])
        for o in range(4):
            ok = True
            for flags in self.types.all_flags(cls, prev):
                rt, rd = self.types.rel(cls, flags)
                fits = False
                for d, i in rd:
                    if (i + o) % 4 != (face + 2) % 4:
                        continue
                    base = sub(target, rot(d, o))
                    tiles = [add(base, rot(t, o)) for t in rt]
                    doors = [(add(base, rot(e, o)), 0) for e, _ in rd]
                    if self.verdict(tiles, doors) is None:
                        fits = True
                        break
                if not fits:
                    ok = False
                    break
            if ok:
                return o
        return None

    # observation
    def watch(self):
        u = self.upm
        key = (len(u.rooms), len(u.unoccupied), len(u.links), len(u.occupied))
        if key != self.seen:
            self.observe()

    def doors_on_offer(self):
        """The library's list of doorways, in the model's terms."""
        u = self.upm
        out = []
        for entry in u.unoccupied:
            p, room, o = entry
            i = self.ids.get(id(room))
            if i is None:
                if 'P11' in self.want:
                    fail('foreign-doorway', 'a doorway at %r belongs to a room that is not in the map', tup(p))
                i = -1
            out.append((tup(p), quarter(o), i))
        return out

    def observe(self, placed=True, expect_growth=None):
        """Check everything against the state as it is now."""
        u, want, ctx = self.upm, self.want, self.ctx
        self.seen = (len(u.rooms), len(u.unoccupied), len(u.links), len(u.occupied))
        self.steps += 1
        new = u.rooms[self.known:]
        old_offers = self.offers
        first = self.known
        if len(u.rooms) < self.known:
            fail('rooms-lost', 'placed rooms disappeared from the list of rooms')
        for i in range(self.known):
            if u.rooms[i] is not self.geo[i][0]:
                fail('rooms-reordered', 'room %d of the list was replaced', i)
        for room in new:
            i = len(self.geo)
            tiles, doors = self.geometry(room)
            if 'P06' in want or 'P11' in want or 'P15' in want:
                got = [tup(t) for t in room.get_positions()]
                if sorted(got) != sorted(tiles):
                    fail('tiles', 'placed %s at %r facing %r claims tiles %r, its type has %r', room.__class__.__name__, tup(room.pos),
                         tup(room.orientation), sorted(got)[:9], sorted(tiles)[:9])
                gd = sorted((tup(d['offset']), quarter(d['orientation'])) for d in room.get_doorways())
                if gd != sorted(doors):
                    fail('doorways', 'placed %s at %r has doorways %r, its type has %r', room.__class__.__name__, tup(room.pos), gd, sorted(doors))
            self.ids[id(room)] = i
            self.geo.append((room, tiles, doors))
            for t in tiles:
                if t in self.tiles and 'P06' in want:
                    fail('overlap', 'tile %r is claimed by room %d (%s) and by room %d (%s)', t, self.tiles[t],
                         u.rooms[self.tiles[t]].__class__.__name__, i, room.__class__.__name__)
                self.tiles[t] = i
            ctx.log('room', i, room.__class__.__name__, tup(room.pos), quarter(room.orientation))
        self.known = len(u.rooms)
        if 'P06' in want:
            self.check_occupied()
        if 'P07' in want:
            self.check_inside(first)
        if 'P09' in want and placed:
            if len(new) % self.mirror or (expect_growth and len(new) != expect_growth) or \
                    (self.phase == 'place' and len(new) > self.mirror):
                fail('group', 'a step added %d rooms in %d-way mirror mode', len(new), self.mirror)
            if new:
                self.check_symmetry()
        if placed and self.phase == 'place':
            if 'P08' in want:
                self.check_joined(first)
        if 'P08' in want and placed and self.phase == 'place':
            self.check_links(first)
        offers = self.doors_on_offer()
        gone = set()
        if placed:
            gone = self.check_doors(offers, old_offers, first)
        self.offers = set(offers)
        if gone and placed and self.phase == 'place':
            for d in sorted(gone):
                self.given_up.add(d)
                ctx.log('gave-up', d)
                ctx.probe('doorway given up')
                if 'P10' in want or 'P11' in want:
                    prev = u.rooms[d[2]]
                    for cls in self.catalogue:
                        o = self.usable(d, prev, cls)
                        if o is not None:
                            fail('gave-up', 'the doorway at %r facing %r was given up although %s fits there turned by %d degrees',
                                 d[0], DIRS[d[1]], cls.__name__, 90 * o)
        if new:
            ctx.state([(r.__class__.__name__, tup(r.pos), quarter(r.orientation)) for r in new], len(self.geo), sorted(self.offers)[:6])
        for r, t, d in self.geo[first:]:
            if any(not inside(x) for x, _ in d):
                ctx.probe('doorway at the edge of the map')

    def check_occupied(self):
        u = self.upm
        got = {}
        for p, room in u.occupied.items():
            t = tup(p)
            if t in got:
                fail('occupied', 'tile %r is recorded twice', t)
            got[t] = self.ids.get(id(room), -1)
        if got != self.tiles:
            for t in set(got) - set(self.tiles):
                fail('occupied', 'tile %r is recorded as occupied, no placed room has it', t)
            for t in set(self.tiles) - set(got):
                fail('occupied', 'tile %r of room %d is not recorded as occupied', t, self.tiles[t])
            for t in got:
                if got[t] != self.tiles[t]:
                    fail('occupied', 'tile %r is recorded for room %d, it belongs to room %d', t, got[t], self.tiles[t])

    def check_inside(self, first):
        for i, (room, tiles, doors) in enumerate(self.geo[first:], first):
            for t in tiles:
                if not inside(t):
                    fail('outside', 'room %d, %s at %r facing %r, has tile %r outside the map', i, room.__class__.__name__,
                         tup(room.pos), tup(room.orientation), t)
            for p in room.get_positions():
                if not inside(tup(p)):
                    fail('outside', 'room %d, %s, claims tile %r outside the map', i, room.__class__.__name__, tup(p))
        for p, room, o in self.upm.unoccupied:
            if not inside(tup(p)):
                fail('doorway-outside', 'the doorway on offer at %r lies outside the map', tup(p))

    def describe(self, room, tiles, doors, q):
        fl = getattr(room, '_randflags', None)
        return (room.__class__, None if fl is None else tuple(bool(x) for x in fl), about(tup(room.pos), q),
                (quarter(room.orientation) + q) % 4, tuple(sorted(about(t, q) for t in tiles)),
                tuple(sorted((about(o, q), (i + q) % 4) for o, i in doors)))

    def check_symmetry(self):
        from collections import Counter
        rooms = [(r, [tup(p) for p in r.get_positions()], [(tup(d['offset']), quarter(d['orientation'])) for d in r.get_doorways()])
                 for r, _, _ in self.geo]
        here = Counter(self.describe(r, t, d, 0) for r, t, d in rooms)
        for q in self.qs[1:]:
            there = Counter(self.describe(r, t, d, q) for r, t, d in rooms)
            if here != there:
                odd = next(iter((there - here)))
                fail('asymmetry', 'no %s at %r turned %d with flags %r, the image of a placed room turned by %d degrees',
                     odd[0].__name__, odd[2], odd[3], odd[1], 90 * q)
            links = Counter((tup(a), tup(b)) for a, b in self.upm.links)
            turned = Counter((about(tup(a), q), about(tup(b), q)) for a, b in self.upm.links)
            if links != turned:
                fail('asymmetric-links', 'the link %r has no image turned by %d degrees', next(iter(links - turned)), 90 * q)
            occ = Counter(tup(p) for p in self.upm.occupied)
            if occ != Counter(about(t, q) for t in occ):
                fail('asymmetric-tiles', 'the occupied tiles are not symmetric under a turn by %d degrees', 90 * q)

    def facing(self, i, j):
        """Whether rooms i and j face each other through doorways."""
        for o, f in self.geo[i][2]:
            for p, g in self.geo[j][2]:
                if (f + 2) % 4 == g and p == sub(o, DIRS[f]) and o == sub(p, DIRS[g]):
                    return True
        return False

    def check_joined(self, first):
        n = len(self.geo)
        # real doorways of the rooms as they now are
        for i in range(first, n):
            r = self.geo[i][0]
            self.geo[i] = (r, self.geo[i][1], [(tup(d['offset']), quarter(d['orientation'])) for d in r.get_doorways()])
        for i in range(first, n):
            to = [j for j in range(first) if self.facing(i, j)]
            if not to:
                fail('unjoined', 'room %d, %s at %r facing %r flags %r, has no doorway facing a doorway of an earlier room', i,
                     self.geo[i][0].__class__.__name__, tup(self.geo[i][0].pos), tup(self.geo[i][0].orientation),
                     getattr(self.geo[i][0], '_randflags', None))
            self.pairs[i] = to

    def check_links(self, first):
        links = self.upm.links
        n = len(self.geo)
        if len(links) != n - self.nstart:
            fail('links', '%d rooms were placed, %d links are recorded', n - self.nstart, len(links))
        new = links[self.links_seen:]
        self.links_seen = len(links)
        free = list(range(first, n))
        for a, b in new:
            a, b = tup(a), tup(b)
            hit = None
            for i in free:
                if tup(self.geo[i][0].pos) == b and any(tup(self.geo[j][0].pos) == a for j in self.pairs[i]):
                    hit = i
                    break
            if hit is None:
                fail('links', 'the recorded link %r to %r joins no pair of rooms facing each other', a, b)
            free.remove(hit)
        if free:
            fail('links', 'room %d has no recorded link', free[0])

    def check_doors(self, offers, old, first):
        """P11.  Returns the doorways given up in this step."""
        want11 = 'P11' in self.want
        seen = set()
        for off, face, i in offers:
            if want11:
                if (off, face, i) in seen:
                    fail('twice', 'the doorway at %r is on offer twice', off)
                if i >= 0 and (off, face) not in self.geo[i][2]:
                    fail('no-such-doorway', 'the doorway on offer at %r facing %r is not one of room %d (%s), which has %r', off, DIRS[face], i,
                         self.geo[i][0].__class__.__name__, self.geo[i][2])
                if not inside(off):
                    fail('offer-outside', 'the doorway on offer at %r leads out of the map', off)
                if off in self.tiles:
                    fail('offer-occupied', 'the doorway on offer at %r leads to a tile of room %d', off, self.tiles[off])
            seen.add((off, face, i))
        due = set()
        for i, (room, tiles, doors) in enumerate(self.geo):
            for off, face in doors:
                if inside(off) and off not in self.tiles:
                    due.add((off, face, i))
        missing = due - seen - self.given_up
        gone = missing & old
        if want11:
            if self.given_up & seen:
                fail('back', 'a doorway that was given up is on offer again')
            never = missing - old
            if never:
                d = sorted(never)[0]
                fail('not-offered', 'the doorway of room %d at %r facing %r is not on offer', d[2], d[0], DIRS[d[1]])
            if gone and (len(self.geo) > first or self.phase != 'place'):
                d = sorted(gone)[0]
                fail('dropped', 'the doorway of room %d at %r facing %r was dropped unused', d[2], d[0], DIRS[d[1]])
            if len({(d, f, i) for d, f, i in gone}) > 1:
                fail('dropped', 'the doorways %r were dropped in one step', sorted(gone)[:4])
        return gone


def try_registration(w, ctx):
    """Offer rooms at chosen places to the collision test, without placing."""
    for p in w.sc['probe']:
        room = w.types.make_room(p)
        tiles, doors = w.geometry(room)
        v = w.verdict(tiles, doors)
        before = (len(w.upm.rooms), len(w.upm.occupied), len(w.upm.unoccupied))
        got = w.upm.preregister_room(room)
        ctx.log('preregister', tup(room.pos), bool(got))
        if (len(w.upm.rooms), len(w.upm.occupied), len(w.upm.unoccupied)) != before:
            fail('preregister-changes', 'testing whether a room fits changed the map')
        if got and v == 'collides' and 'P06' in w.want:
            fail('accepted-collision', 'a %s at %r whose tiles collide is accepted', room.__class__.__name__, tup(room.pos))
        if got and v == 'outside' and 'P07' in w.want:
            fail('accepted-outside', 'a %s at %r with tiles outside the map is accepted', room.__class__.__name__, tup(room.pos))
        if v == 'collides':
            ctx.probe('colliding room refused')
        if v == 'outside':
            ctx.probe('outlying room refused')


def simulate(sc, ctx, want):
    from sim.rng import SIM
    w = World(sc, ctx, want)
    u = w.upm
    ctx.random(sc['rng'], cap=3_000_000)
    ctx.meta['mirror'] = sc['mirror']
    ctx.meta['random outcomes'] = sc['rng'].get('mode', 'natural')
    # starting rooms
    for s in sc['starts']:
        room = w.types.make_room(s)
        tiles, doors = w.geometry(room)
        v = w.verdict(tiles, doors)
        if v == 'outside' or (v == 'collides' and any(not inside(about(t, q)) for t in tiles for q in w.qs)):
            continue                      # the caller's choice, not the library's
        w.phase = 'start'
        try:
            u.register_room(room)
        except Exception as e:
            if v != 'collides':
                raise
            ctx.log('start refused', str(e))
            ctx.probe('colliding start refused')
            if 'P06' in want:
                ctx.nontrivial = True
            return w
        if v == 'collides' and 'P06' in want:
            fail('accepted-collision', 'a start %s at %r that collides with itself or others was registered', room.__class__.__name__, tup(room.pos))
        if v == 'collides':
            raise Invalid()
        w.observe(expect_growth=w.mirror)
    if not u.rooms:
        raise Invalid()
    w.nstart = len(u.rooms)
    try_registration(w, ctx)
    for ph in sc['phases']:
        if not ph['cat']:
            raise Invalid()
        w.catalogue = [w.types[c] for c in ph['cat']]
        before = len(u.rooms)
        goal = ph['rooms']
        w.phase = 'place'
        SIM.watch = w.watch
        u.place_rooms(False, list(w.catalogue), rooms=goal)
        SIM.watch = None
        w.observe()
        w.phase = 'idle'
        got = len(u.rooms) - before
        ctx.log('placed', got, 'of', goal)
        if 'P10' in want:
            if got >= goal + w.mirror and got > 0:
                fail('too-many', '%d rooms were placed, %d requested, mirror groups of %d', got, goal, w.mirror)
            if got < goal and w.offers:
                fail('stopped-early', '%d of %d rooms placed with doorways %r never tried', got, goal, sorted(w.offers)[:3])
            if u.unoccupied and got < goal:
                fail('stopped-early', '%d of %d rooms placed with doorways left', got, goal)
        ctx.probe('target reached' if got >= goal else 'no room left')
        if got:
            ctx.nontrivial = True
    return w


def cap(w, ctx):
    """Close doorways with end caps, and check P06, P07 and P12 on the way."""
    sc, u, want = w.sc, w.upm, w.want
    from sim.rng import SIM
    caps = [w.types[c] for c in sc['caps']]
    before = [(r, w.describe(r, t, d, 0)) for r, t, d in w.geo]
    n = len(u.rooms)
    open_before = set(w.offers)
    w.phase = 'cap'
    seen = {}

    def watch():
        key = (len(u.rooms), len(u.occupied))
        if key != seen.get('k'):
            seen['k'] = key
            w.observe(placed=False)
    SIM.watch = watch
    debug = bool(sc.get('debug'))
    if debug:                   # placeholders instead of caps
        from redeclipse.prefabs import TestRoom
        caps = [TestRoom]
    u.endcap(debug=debug, possible_endcaps=list(caps))
    SIM.watch = None
    w.observe(placed=False)
    ctx.log('caps', len(u.rooms) - n)
    if len(u.rooms) > n:
        ctx.nontrivial = True
        ctx.probe('end cap placed', len(u.rooms) - n)
    if 'P12' not in want:
        return
    for i, (r, was) in enumerate(before):
        if u.rooms[i] is not r:
            fail('moved', 'room %d was replaced while capping', i)
        now = w.describe(r, [tup(p) for p in r.get_positions()], [(tup(d['offset']), quarter(d['orientation'])) for d in r.get_doorways()], 0)
        if now != was:
            fail('moved', 'room %d was changed while capping', i)
    taken = {}
    for i, (r, tiles, doors) in enumerate(w.geo):
        for t in tiles:
            if t in taken and i >= n:
                fail('cap-overlap', 'the cap %s at %r overlaps room %d at tile %r', r.__class__.__name__, tup(r.pos), taken[t], t)
            taken[t] = i
        if i >= n:
            if r.__class__ not in caps:
                fail('cap-type', 'capping added a %s', r.__class__.__name__)
            for t in tiles:
                if not inside(t):
                    fail('cap-outside', 'the cap %s at %r has tile %r outside the map', r.__class__.__name__, tup(r.pos), t)
            if not any((f + 2) % 4 == g and p == sub(o, DIRS[f]) and (p, g) in {(a, b) for a, b, _ in open_before} | {(o2, f2) for a2, t2, d2 in w.geo[:n] for o2, f2 in d2}
                       and o == sub(p, DIRS[g]) for o, f in doors for p, g in [(sub(o, DIRS[f]), (f + 2) % 4)]):
                fail('cap-unjoined', 'the cap %s at %r facing %r has no doorway facing an open doorway', r.__class__.__name__, tup(r.pos),
                     tup(r.orientation))
    if {tup(p) for p in u.occupied} != set(taken):
        fail('occupied', 'the record of occupied tiles does not match the rooms and caps')
    # every doorway still open: no offered cap fits
    for off, face, i in sorted(open_before):
        if off in taken:
            continue
        if debug:
            fail('left-open', 'the doorway at %r facing %r was left open by the placeholders', off, DIRS[face])
        target = sub(off, DIRS[face])
        for cls in caps:
            rt, rd = w.types.rel(cls, None if getattr(cls, '_randflags', None) is None else tuple(cls._randflags))
            if len(rd) != 1:
                continue
            d, f = rd[0]
            o = (face + 2 - f) % 4
            base = sub(target, rot(d, o))
            tiles = [add(base, rot(t, o)) for t in rt]
            if all(inside(t) and t not in taken for t in tiles):
                fail('left-open', 'the doorway at %r facing %r was left open although %s fits there', off, DIRS[face], cls.__name__)
        ctx.probe('doorway no cap fits')


def draw(w, ctx):
    """Draw the rooms into a world and see that all of it lies in the map."""
    from redeclipse.voxel import VoxelWorld

    class Entities:
        def __init__(self):
            self.ents = []
    v = VoxelWorld(size=256)
    x = Entities()
    for room in w.upm.rooms:
        room.render(v, x)
    for k in v.world:
        if not all(c == int(c) and 0 <= c < 256 for c in k):
            fail('drawn-outside', 'a voxel of a placed room was drawn at %r, outside the map', tuple(k))
        t = tuple(int(c) // 8 for c in k)
        if t not in w.tiles:
            fail('drawn-elsewhere', 'a voxel was drawn at %r, in tile %r that no room occupies', tuple(k), t)
    ctx.probe('placed rooms drawn')
    ctx.log('drawn', len(v.world))


REAL = ['redeclipse.upm.UnusedPositionManager', 'redeclipse.prefabs (procedural and Magica rooms)', 'redeclipse.prefabs.distributions',
        'redeclipse.vector', 'redeclipse.magicavoxel.reader (shipped .vox models)']
STUB = ['random module source (simulated, seeded, outcomes forced on some draws)', 'time, os.urandom (simulated)', 'tqdm progress bar (disabled)']
ASSUME = ['Catalogues are the library\'s procedural rooms, its Magica rooms, and synthetic Room subclasses of up to about nine tiles and eight '
          'doorways; starting rooms lie within the map.',
          'A doorway that was given up is only faulted when some offered type fits it whatever options are drawn.']
RULE = 'a run that placed at least one room after the start (or, for end caps, at least one cap) and whose event log differs from every other run'
MEASURE = 'distinct (rooms just placed with position and orientation, room count, open doorways) reached'
