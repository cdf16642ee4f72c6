"""Seeded generation of worlds (files, maps, registrations, jobs).  Everything is JSON-able."""
from . import world as W

MODES = ('nearest', 'invdist', 'grib_nearest', 'grib_invdist')
EXOTIC = ('adw', 'bilinear', 'triangulation', 'bilinear_delaunay', 'cdd')
CORRS = (('p+gem-dem*0.0065', '(z/9.81)*0.0065'), ('p+(gem-dem)*0.0065', 'z/9.81'), ('p-0.5*(gem-dem)*0.0065', 'z/9.81+10'))


class G:
    """a world under construction"""

    def __init__(self, rng, rich=True, corr_p=0.15):
        self.corr_p = corr_p
        self.r = rng
        self.rich = rich
        self.w = {'maps': {}, 'inputs': {}, 'jobs': {}}
        self.grids = []
        self.keys = set()
        self.odd = 0
        self.mkeys = set()
        self.n = 0

    # -- grids and maps
    def grid(self, ed=None, like=None):
        for _ in range(200):
            g = W.gen_grid(self.r, ed) if not self.odd or like is not None or self.r.random() >= self.odd else W.gen_odd(self.r, ed)
            if like is not None:      # same area and shape, moved east (sometimes by very little): its tables have the same sizes
                g = dict(like)
                g['lon0'] = float(self.r.randint(1, 60))
                x = self.r.random()
                if self.rich and x < 0.35:
                    g['lon0'] = round(like['lon0'] + self.r.choice((0.004, 0.01, 0.02, 0.04, 0.125)), 3)
                elif self.rich and x < 0.6:      # from the same point, with other steps
                    g.update(lon0=like['lon0'], d=self.r.choice([q for q in (0.25, 0.5, 0.75, 1.0, 1.25, 2.0) if q != like['d']]))
                elif self.rich and x < 0.7:      # to the same point, with other steps
                    g['d'] = self.r.choice([q for q in (0.25, 0.5, 0.75, 1.0) if q != like['d']])
                    g['lon0'] = like['lon0'] + (like['d'] - g['d']) * (g['ni'] - 1)
                    if g['lon0'] < 1:
                        continue
                elif self.rich and x < 0.78:     # as many rows as the other one has columns
                    g.update(lon0=like['lon0'], ni=like['nj'], nj=like['ni'])
            if W.gridkey(g) not in self.keys:
                self.keys.add(W.gridkey(g))
                self.grids.append(g)
                return g
        raise RuntimeError('no grid')

    def maps(self, g, kind=None, like=None, edge=None):
        for _ in range(200):
            m = W.gen_maps(self.r, g, kind)
            if like is not None:
                o = self.w['maps'][like]
                m['rows'], m['cols'] = o['rows'], o['cols']
                m = self._refit(m, g)
            if edge or (self.rich and self.w['maps'] and self.r.random() < 0.3):
                # as another one but for one edge
                o = self.w['maps'][edge or self.r.choice(sorted(self.w['maps']))]
                m.update({k: o[k] for k in ('kind', 'rows', 'cols', 'lat0', 'lon0', 'dlat', 'dlon')})
                by = self.r.choice((0.02, 0.05, 0.1)) * g['d'] * self.r.choice((1, -1))
                e = self.r.choice('nswe')
                if e in 'ns':
                    m['dlat'] += by / (m['rows'] - 1)
                    m['lat0'] += by if e == 'n' else 0
                else:
                    m['dlon'] += by / (m['cols'] - 1)
                    m['lon0'] -= by if e == 'w' else 0
            if self.rich and m['kind'] == 'pcr':
                if self.r.random() < 0.2 and plain(g):
                    # cells exactly on grid points
                    m['hits'] = []
                    for c in self.r.sample(range(m['rows'] * m['cols']), self.r.randint(1, 3)):
                        i, k = self.r.randint(1, g['nj'] - 2), self.r.randint(1, g['ni'] - 2)
                        m['hits'].append([c // m['cols'], c % m['cols'], g['lat0'] - g['d'] * i, g['lon0'] + g['d'] * k])
                if self.r.random() < 0.15:
                    m['coord_mv'] = self.r.choice((0.02, 0.1))
            k = W.mapkey(m)
            if k not in self.mkeys:
                self.mkeys.add(k)
                name = 'M%d' % len(self.w['maps'])
                self.w['maps'][name] = m
                return name
        raise RuntimeError('no map')

    def _refit(self, m, g):
        h, wd = g['d'] * (g['nj'] - 1), g['d'] * (g['ni'] - 1)
        ext = self.r.choice((-0.05, 0.05, 0.12))
        m.update(lat0=g['lat0'] + h * ext, dlat=h * (1 + 2 * ext) / (m['rows'] - 1), lon0=g['lon0'] - wd * ext,
                 dlon=wd * (1 + 2 * ext) / (m['cols'] - 1))
        return m

    # -- inputs
    def fname(self, stem=None):
        self.n += 1
        # file names matter: the table file name is derived from them
        return (stem or self.r.choice(('eue', 'glb_fc', 'epsdata'))) + f'_202001{self.n:02d}' + '00.grb'

    def input(self, g, sn=None, name=None, mask_p=0.25, rich=True, steps=None, st=None, pert=False, levels=False, extra=False):
        r = self.r
        sn = sn or r.choice(('2t', '2t', 'tp', 'tp', 'ssr'))
        if st is None:
            st = 'accum' if sn in ('tp', 'ssr') else 'instant'
        if steps is None:
            d = r.choice((3, 6, 12))
            n = r.randint(2, 5)
            first = r.choice((0, d)) if st == 'instant' else r.choice((0, d, d))
            steps = [first + d * i for i in range(n)]
        msgs = []
        runs = [{}]
        if self.rich and rich:
            runs = [{'date': r.choice((20200101, 20200101, 20191231, 20200229, 19991231, 20200702)), 'time': r.choice((0, 0, 1200, 600, 1800, 300))}]
            if r.random() < 0.12:      # two runs in the same file
                o = dict(runs[0])
                if r.random() < 0.5:
                    o['date'] += 1 if o['date'] == 20200101 else -1
                else:
                    o['time'] = 0 if o['time'] == 1200 else 1200
                runs.append(o)
                r.shuffle(runs)
        for run in runs:
            if pert:
                for p in r.choice(((1, 2), (1, 2, 3), (0, 1))):
                    msgs += W.gen_msgs(r, sn, steps, st, mask_p, pert=p, **run)
            elif levels and sn == 't':
                for lv in r.choice(((500, 850), (850, 500), (50, 500))):
                    msgs += W.gen_msgs(r, sn, steps, st, mask_p, level=lv, **run)
            else:
                msgs += W.gen_msgs(r, sn, steps, st, mask_p, **run)
        if self.rich and rich and st == 'accum' and r.random() < 0.4:
            base = r.choice((1, 6))      # counted from before the start
            for m in msgs:
                m['base'] = base
        if extra:       # another field in the same file, never to be mixed up
            o = r.choice([x for x in ('2t', 'tp') if x != sn])
            msgs += W.gen_msgs(r, o, steps[-2:], 'accum' if o == 'tp' else 'instant', 0)
        name = name or self.fname()
        self.w['inputs'][name] = {'grid': g, 'msgs': msgs}
        return name

    def tworesolutions(self, g, single=False, sn=None):
        """names of two files: the second one goes on at another resolution from the last step of the first one; or one file having both"""
        r = self.r
        sn = sn or r.choice(('2t', 'tp', 'ssr'))
        st = 'accum' if sn in ('tp', 'ssr') else 'instant'
        for _ in range(100):
            g2 = dict(g, d=g['d'] * 2, ni=(g['ni'] - 1) // 2 + 1, nj=(g['nj'] - 1) // 2 + 1)
            if g2['ni'] < 5 or g2['nj'] < 4 or r.random() < 0.6:
                g2 = dict(g, d=g['d'] / 2, ni=g['ni'] * 2 - 1 - r.randint(0, 1), nj=g['nj'] * 2 - 1)
            if W.gridkey(g2) not in self.keys:
                break
        self.keys.add(W.gridkey(g2))
        self.grids.append(g2)
        d = r.choice((3, 6))
        first = 0 if r.random() < 0.3 else d
        one = [first + d * i for i in range(r.randint(2, 4))]
        d2 = r.choice((d, 2 * d))
        two = [one[-1] + d2 * i for i in range(r.randint(2, 3))]
        run = {'date': r.choice((20200101, 20191231, 19581231, 20200329)), 'time': r.choice((0, 1200))}
        a, b = W.gen_msgs(r, sn, one, st, 0.2, **run), W.gen_msgs(r, sn, two, st, 0.2, **run)
        names = [self.fname()]
        if single:
            for m in b:
                m['grid'] = g2
            self.w['inputs'][names[0]] = {'grid': g, 'msgs': a + b}
        else:
            names.append(self.fname())
            self.w['inputs'][names[0]] = {'grid': g, 'msgs': a}
            self.w['inputs'][names[1]] = {'grid': g2, 'msgs': b}
        return names

    def job2(self, names, maps, **kw):
        """a job about both resolutions"""
        r = self.r
        i = self.w['inputs'][names[0]]
        one = i['msgs'] if len(names) > 1 else [m for m in i['msgs'] if not m.get('grid')]
        two = self.w['inputs'][names[1]]['msgs'] if len(names) > 1 else [m for m in i['msgs'] if m.get('grid')]
        j = self.job(names[0], maps, plain=True, **kw)
        e1, e2 = [m['s1'] for m in one], [m['s1'] for m in two]
        change, end = e2[0], e2[-1]
        if len(names) > 1:
            j['input2'] = names[1]
        d = e1[1] - e1[0]
        steps = [s for s in (d, 2 * d, e2[1] - e2[0]) if change % s == 0 and (end - change) % s == 0]
        if two[0]['st'] == 'accum':
            if r.random() < 0.6:
                j['aggr'] = {'type': 'accumulation', 'step': r.choice(steps)}
                j['unitTime'] = r.choice((24, j['aggr']['step']))
        elif r.random() < 0.5:
            t = r.choice(('average', 'instantaneous'))
            steps = [s for s in steps if t == 'instantaneous' or (change + 1) % s and s > 1]
            if steps:
                j['aggr'] = {'type': t, 'step': r.choice(steps)}
        a = (j.get('aggr') or {}).get('step')
        if r.random() < 0.3:
            c = [e for e in e1[1:] + e2[1:] if not a or e % a == 0]
            if c:
                j['c_end'] = r.choice(c)
        if any(m.get('mask') or m.get('nodata') for m in two):
            j.pop('corr', None)       # missing values are part of the identifier of a geopotential
        if j.get('corr') and self.rich and r.random() < 0.4 and not any(m['sn'] == 'z' for m in i['msgs']):
            # the first file has its own geopotentials
            gs = self.grids_of(names)
            for g in r.choice(((gs[0],), (gs[1],), gs, gs[::-1])):
                z = {k: v for k, v in one[0].items() if k in ('date', 'time')}
                z.update(sn='z', s0=0, s1=0, st='instant', seed=r.randrange(1, 10**8))
                if r.random() < 0.3:
                    z['mask'] = r.randrange(1, 10**6)
                if g is not i['grid']:
                    z['grid'] = g
                i['msgs'].append(z)
        if j.get('corr') and not self.has_geo(self.grids_of(names)[1]):
            self.geo(self.grids_of(names)[1], register=r.choice(('user', 'global')), dirn=r.choice(('geo', 'ggeo')))
        return j

    def grids_of(self, names):
        i = self.w['inputs'][names[0]]
        if len(names) > 1:
            return [i['grid'], self.w['inputs'][names[1]]['grid']]
        return [i['grid']] + [m['grid'] for m in i['msgs'] if m.get('grid')][:1]

    def geo(self, g, name=None, register='user', dirn='geo', where=None):
        """a geopotential file of grid g, registered for it"""
        r = self.r
        name = name or 'geo%d.grb' % len(self.w['inputs'])
        sn = 'z'
        self.w['inputs'][name] = {'grid': g, 'dir': where or dirn, 'msgs': [{'sn': sn, 's0': 0, 's1': 0, 'st': 'instant', 'seed': r.randrange(1, 10**8)}]}
        if self.rich and r.random() < 0.12:
            # a second field that might serve as geopotential
            self.w['inputs'][name]['msgs'].append({'sn': 'orog', 's0': 0, 's1': 0, 'st': 'instant', 'seed': r.randrange(1, 10**8)})
        if register:
            gid = gridid(g)
            if register == 'user':
                self.w.setdefault('user', {}).setdefault('geopotentials.json', {'description': 'Config file for geopotentials. Do NOT edit this file!'})[gid] = name
            else:
                self.w.setdefault('global_geo', {})[gid] = name
        return name

    # -- jobs
    def job(self, inp, maps, mode=None, via=None, corr=None, plain=False, **kw):
        """plain: neither aggregation nor steps"""
        r = self.r
        i = self.w['inputs'][inp]
        sn = i['msgs'][0]['sn']
        own = [m for m in i['msgs'] if m['sn'] == sn]
        st = own[-1]['st']
        ends = sorted({m['s1'] for m in own})
        d = ends[1] - ends[0] if len(ends) > 1 else (ends[0] or 6)
        j = {'id': 'j%d' % len(self.w['jobs']), 'via': via or r.choice(('cli', 'cli', 'command')), 'input': inp, 'maps': maps, 'param': sn,
             'mode': mode or r.choice(MODES), 'B': True, 'unitTime': 24}
        j['out'] = 'o' + j['id']
        if i['grid'].get('type') in ('reduced_gg', 'rotated_ll'):
            j['mode'] = j['mode'].replace('grib_', '')
        if j['mode'] == 'cdd' and not self.w.get('cdd'):
            self.w['cdd'] = {'mode': r.choice(('Hofstra', 'MixHofstraShepard', 'NewEtAl')), 'file': r.choice(('map', 'nc'))}
            if self.w['cdd']['mode'] == 'MixHofstraShepard' and r.random() < 0.6:
                self.w['cdd']['options'] = {'m_const': r.choice((2, 4)), 'min_num_of_station': r.choice((2, 4, 5)), 'radius_ratio': r.choice((1 / 3, 0.5)), 'weights_mode': r.choice(('All', 'OnlyTOP10'))}
            for n, m in self.w['maps'].items():
                m['cdd_km'] = round(m['dlat'] * 111 * r.choice((1, 2, 4)), 1)
        convs = {'2t': ('k2c', 'k2c_cut', 'id', None), 'tp': ('m2mm', None), 't': ('k2c', None), 'ssr': ('wm2', None)}[sn]
        c = r.choice(convs)
        if c:
            j['conv'] = c
        if own[0].get('pert') is not None:
            j['pert'] = r.choice(sorted({m['pert'] for m in own}))
        if own[0].get('level') is not None:
            j['level'] = r.choice(sorted({m['level'] for m in own}))
        last = ends[-1]
        masked = any(m.get('mask') or m.get('nodata') for m in own)      # (registered geopotentials are those of grids without missing values)
        runs = sorted({(m.get('date'), m.get('time')) for m in own})
        if len(runs) > 1:
            date, time = r.choice(runs)
            api = j['via'] == 'api'
            if len({d for d, _ in runs}) > 1:
                j['c_dataDate' if r.random() < 0.5 else 'dataDate'] = date
            else:
                j['c_dataTime' if r.random() < 0.5 and (api or time in (0, 1200)) else 'dataTime'] = time
        if plain:
            pass
        elif st == 'accum':
            x = r.random()
            if x < 0.55 and len(ends) > 1:
                a = r.choice([s for s in (d, 2 * d) if s <= last and last % s == 0] or [d])
                if self.rich and r.random() < 0.2:
                    a = r.choice([d // k for k in (2, 3) if d % k == 0] or [d])
                j['aggr'] = {'type': 'accumulation', 'step': a}
                if r.random() < 0.3:
                    j['aggr']['zero'] = True
                j['unitTime'] = r.choice((24, 1, a))
        elif len(ends) > 1:
            x = r.random()
            if x < 0.3:
                a = r.choice([s for s in (d, 2 * d) if s <= last] or [d])
                if self.rich and r.random() < 0.2 and d % 2 == 0 and (last + 1) % (d // 2) and d > 3:
                    a = d // 2
                j['aggr'] = {'type': 'average', 'step': a}
                if self.rich and ends[0] == 0 and a % d == 0 and last % a == 0 and r.random() < 0.4:
                    j['aggr']['half'] = True
            elif x < 0.5:
                j['aggr'] = {'type': 'instantaneous', 'step': d if not self.rich else r.choice((d, d, 2 * d, d // 2 if d % 2 == 0 else d))}
        if r.random() < 0.35 and len(ends) > 2 and not plain:
            # restrict the steps
            lo = r.choice(ends[:-1])
            hi = r.choice([e for e in ends if e > lo])
            if r.random() < 0.5 or (j.get('aggr') and True):
                k = 'c_start', 'c_end'
            else:
                k = 'tstart', 'tend'
            if not j.get('aggr') or (lo % j['aggr']['step'] == 0 and hi % j['aggr']['step'] == 0):
                j[k[0]], j[k[1]] = lo, hi
                if self.rich and not j.get('aggr') and r.random() < 0.3:
                    del j[r.choice(k)]      # open at one side
        elif self.rich and ends[0] == 0 and len(ends) > 1 and not plain and not j.get('aggr') and r.random() < 0.12:
            j[r.choice(('c_end', 'tend'))] = 0      # the first step alone
        if self.rich and r.random() < 0.15:
            j['numbers'] = True
        if corr or (corr is None and sn == '2t' and j.get('conv') != 'k2c_cut' and (not masked or self.rich and not plain and r.random() < 0.4) and r.random() < self.corr_p):
            f, gem = r.choice(CORRS)
            j['corr'] = {'formula': f, 'gem': gem}
        if j['via'] != 'api':
            x = r.random()
            if x < 0.35:
                j['fmt'] = 'netcdf'
            elif x < 0.5:
                j['j_format'] = 'netcdf'
            elif x < 0.8:
                j['fmt'] = 'pcraster'
            if 'netcdf' in (j.get('fmt'), j.get('j_format')):
                if r.random() < 0.3:
                    j['j_valueFormat'] = r.choice(('f8', 'f4', 'i4', 'i2') if sn in ('2t', 't') else ('f8', 'f4', 'i4'))
                    if j['j_valueFormat'] in ('i4', 'i2'):
                        j['j_scaleFactor'], j['j_offset'] = '0.05', '10'
                    if self.rich and r.random() < 0.3:
                        # the command line wins
                        for k in ('valueFormat', 'scaleFactor', 'offset'):
                            if 'j_' + k in j:
                                j['c_' + k] = j['j_' + k]
                                if r.random() < 0.5:
                                    j['j_' + k] = 'f4' if k == 'valueFormat' else '3'
                if self.rich and r.random() < 0.3:
                    k = r.choice(('c_', 'j_'))
                    j[k + 'outputStepUnits'] = r.choice(('s', 'm', 'h', '3h', '6h', '12h', 'D', 'x'))
                    if k == 'c_' and r.random() < 0.4:
                        j['j_outputStepUnits'] = r.choice(('s', 'm', 'h', '3h', '6h', '12h', 'D'))
                if self.rich and r.random() < 0.2:
                    k = r.choice(('c_', 'j_'))
                    j[k + 'validMin'] = '-100' if k == 'j_' or r.random() < 0.5 else '0'
                    j[k + 'validMax'] = '400'
            else:
                if r.random() < 0.3:
                    j['fmap'] = r.choice((1, 3, 90))
                if r.random() < 0.3:
                    j['ext'] = r.choice((1, 2, 4))
            if r.random() < 0.4:
                j['prefix'] = r.choice(('x', 'tem', 'pre_'))
            elif r.random() < 0.2:
                j['j_namePrefix'] = 'jp'
        elif self.rich and r.random() < 0.3:
            j['lean'] = True
        if r.random() < 0.1:
            j['usevars'] = True
        j.update(kw)
        if j['unitTime'] == 24 and r.random() < 0.3:
            j['nounit'] = True      # 24 is the default
        if j.get('corr'):
            if not self.has_geo(i['grid']):
                n = self.geo(i['grid'], register=r.choice(('user', 'user', 'global')), dirn=r.choice(('geo', 'ggeo')))
                if self.rich and r.random() < 0.25:
                    # a file of the same name in the other folder
                    self.samegeo(n, 'geo' if self.w['inputs'][n]['dir'] == 'ggeo' else 'ggeo')
            if self.rich and r.random() < 0.35 and not plain:
                n = self.geo_of(i['grid'])
                j[r.choice(('G', 'j_G'))] = 'geo2'
                if n and not any(x.get('dir') == 'geo2' and x.get('file') == n for x in self.w['inputs'].values()) and r.random() < 0.8:
                    o = [k for k, x in self.w['inputs'].items() if x.get('dir') in ('geo', 'ggeo') and x.get('file', k) == n]
                    if o:
                        self.samegeo(o[0], 'geo2')
            if self.rich and (r.random() < 0.2 or masked) and not plain and not any(m['sn'] == 'z' for m in i['msgs']):
                # the input has its own one
                m = {k: v for k, v in own[0].items() if k in ('date', 'time', 'pert')}
                if 'pert' in m and r.random() < 0.5:
                    # it's often the one of the control forecast
                    m['pert'] = 0
                if r.random() < 0.2:
                    m.pop('pert', None)
                i['msgs'].append(dict(m, sn='z', s0=0, s1=0, st='instant', seed=r.randrange(1, 10**8)))
                if r.random() < 0.4:
                    i['msgs'][-1]['mask'] = r.randrange(1, 10**6)
        self.w['jobs'][j['id']] = j
        return j

    def samegeo(self, name, dirn):
        """a geopotential file of the same name and grid in another folder"""
        i = self.w['inputs'][name]
        n = f'{dirn}_{name}'
        if n not in self.w['inputs']:
            self.w['inputs'][n] = dict(i, dir=dirn, file=i.get('file', name), msgs=[dict(m, seed=m['seed'] + 3) for m in i['msgs']])
        return n

    def sibling(self, jid):
        """a job that needs another table than jid, though nearly everything about both is the same"""
        r = self.r
        o = self.w['jobs'][jid]
        i = self.w['inputs'][o['input']]
        if o.get('input2') or any(m.get('grid') for m in i['msgs']):
            return None
        j = dict(o, id='j%d' % len(self.w['jobs']))
        j['out'] = 'o' + j['id']
        if r.random() < 0.6 or not plain(i['grid']):
            j['maps'] = self.maps(i['grid'], edge=o['maps'])
        else:
            g = self.grid(like=i['grid'])
            j['input'] = self.fname(r.choice((None, o['input'].split('_2020')[0])))
            self.w['inputs'][j['input']] = dict(i, grid=g)
            if j.get('corr') and not self.has_geo(g):
                self.geo(g, register=r.choice(('user', 'global')), dirn=r.choice(('geo', 'ggeo')))
        self.w['jobs'][j['id']] = j
        return j

    def geo_of(self, g):
        k = gridid(g)
        return self.w.get('user', {}).get('geopotentials.json', {}).get(k) or self.w.get('global_geo', {}).get(k)

    def has_geo(self, g):
        k = gridid(g)
        return k in self.w.get('user', {}).get('geopotentials.json', {}) or k in self.w.get('global_geo', {})


def gridid(g):
    def n(x):
        return ('%.4f' % x).rstrip('0').rstrip('.')
    if g.get('type') == 'reduced_gg':
        return ('0$357.188$M$64$6114$reduced_gg', '0$357.1875$M$64$6114$reduced_gg')[g['edition'] - 1]
    first, last = g['lon0'], g['lon0'] + g['d'] * (g['ni'] - 1)
    if g.get('edition') == 2:
        first, last = first % 360, last % 360
    return f"{n(first)}${n(last)}${g['ni']}${g['nj']}${g['ni'] * g['nj']}${g.get('type', 'regular_ll')}"


def plain(g):
    """a regular grid of a part of the world"""
    return g.get('type', 'regular_ll') == 'regular_ll' and not g.get('around')


def simple(rng, njobs=1, ngrids=1, nmaps=1, same_size=False, modes=MODES, via=None, rich=True, two=0.08, corr_p=0.15, odd=0.06, **kw):
    """a world with some grids, targets and jobs; two: how often a job is about two resolutions; odd: how often a grid is not a usual one"""
    b = G(rng, rich, corr_p)
    b.odd = odd if rich and not same_size and not set(modes) - set(MODES) else 0
    g0 = b.grid()
    gs = [g0] + [b.grid(like=g0 if same_size else None) for _ in range(ngrids - 1)]
    ins, ms = {}, {}
    for k, g in enumerate(gs):
        if k and abs(g['lon0'] - g0['lon0']) < 3 and g['lat0'] == g0['lat0'] and rng.random() < 0.6:
            ms[k] = ms[0]       # both grids for the same target
            ins[k] = []
            continue
        ms[k] = [b.maps(g, like=('M0' if (same_size and b.w['maps']) else None))]
        while len(ms[k]) < nmaps:
            ms[k].append(b.maps(g, like='M0' if same_size else None))
        ins[k] = []
    for _ in range(njobs):
        k = rng.randrange(len(gs))
        if rich and rng.random() < two and plain(gs[k]):
            b.job2(b.tworesolutions(gs[k], single=rng.random() < 0.35), rng.choice(ms[k]), mode=rng.choice([m for m in modes if m in MODES] or MODES), via=via, **kw)
            continue
        if ins[k] and rng.random() < 0.5:
            i = rng.choice(ins[k])
        else:
            i = b.input(gs[k], pert=rng.random() < 0.12, extra=rng.random() < 0.2,
                        **(dict(sn='t', levels=True) if rng.random() < 0.1 else {}))
            ins[k].append(i)
        b.job(i, rng.choice(ms[k]), mode=rng.choice(modes), via=via, **kw)
    return b
