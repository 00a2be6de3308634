import datetime
import itertools
import os
import time
import xml.etree.ElementTree as ET

from .. import core, ref, rig
from ..core import Family, Obs, Search, Violation, call, check, eq, expect_exc, expect_ok

PROP, LEVEL = 'C17', 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all sequences of record building operations (with reloads in between) and of all attribute values, '
             'against an independent record model; every document is parsed back by the library and by the XML reader')
RULE = 'one evaluation per operation sequence or attribute combination; distinct by the record reached'
BOUNDS = ('all sequences of up to 7 (quick) or 9 (thorough) of 8 operations, merged on equal records; every attribute over 6 texts, all pairs of '
          'attributes, all subsets of the device attributes; 13 point values x 6 indexes x 6 scale factors x 2 times; every element of a document renamed; values, names and records of up to 1000 characters or parts; texts of 56 shapes at 14 places; 33 spellings of 6 numbers')
ASSUMPTIONS = ['empty strings, model index 0 or 1 written explicitly, units and descriptions (never written) and elements inside points are not judged']

import sunspec.core.data as data

DEV = ['logger_id', 'man', 'mod', 'sn', 'cid', 'device_id', 'ifc', 'namespace']
XML = {'logger_id': 'lid', 'namespace': 'ns', 'device_id': 'id', 'ifc': 'if', 'man': 'man', 'mod': 'mod', 'sn': 'sn', 'timestamp': 't', 'cid': 'cid'}
TEXTS = ['a', '100% %s {0} {} \\n', '00:11:22', 'x<&">\'y', '\u00e9\u20ac', ' two words ', '0']
VALUES = [None, 0, '%d {x} 100%', 1, -5, 12.5, 'text', '0', ' 7 ', 'x<&>"', '\u00e9', 1 << 63, -0.25, 'None']
TIMES = [0, 1, 951782400, 1577836799, 1577836800, 4102444800, 1600000000.75]


def iso(t):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(t))).strftime('%Y-%m-%dT%H:%M:%SZ')


# reference record: [version, [device...]]; device {attr: text, 'models': [...]}; model {id, ns, x, points}; point (id, value text, index, sf, time)

def shown(rec):
    """What the library object says."""
    out = []
    for d in rec.device_data:
        dd = {a: getattr(d, a) for a in DEV + ['timestamp']}
        dd['models'] = [{'id': m.model_id, 'ns': m.namespace, 'x': m.index if m.index is not None else 1,
                         'points': [(p.point_id, None if p.value is None else str(p.value), p.index, p.sf, p.time) for p in m.point_data]}
                        for m in d.model_data]
        out.append(dd)
    return out


def parsed(text):
    """What the document says."""
    root = ET.fromstring(text)
    eq('root element', root.tag, 'sunSpecData')
    out = []
    for d in root:
        eq('device element', d.tag, 'd')
        check(set(d.attrib) <= set(XML.values()), 'unexpected device attributes %s' % sorted(d.attrib), 'attributes')
        dd = {a: d.get(XML[a]) for a in DEV + ['timestamp']}
        dd['models'] = []
        for m in d:
            eq('model element', m.tag, 'm')
            check(set(m.attrib) <= {'id', 'ns', 'x'}, 'unexpected model attributes %s' % sorted(m.attrib), 'attributes')
            ps = []
            for p in m:
                eq('point element', p.tag, 'p')
                check(set(p.attrib) <= {'id', 'index', 'sf', 't', 'u', 'd'}, 'unexpected point attributes %s' % sorted(p.attrib), 'attributes')
                i, sf = p.get('index'), p.get('sf')
                ps.append((p.get('id'), p.text, None if i is None else int(i), None if sf is None else int(sf), p.get('t')))
            dd['models'].append({'id': m.get('id'), 'ns': m.get('ns'), 'x': int(m.get('x', '1')), 'points': ps})
        out.append(dd)
    return root.get('v'), out


def round_trip(rec, want, version=None):
    """Write, parse, load, write again in all ways. Returns the text."""
    eq('record', shown(rec), want)
    plain = expect_ok('write', rec.to_xml_str)
    pretty = expect_ok('write pretty-printed', rec.to_xml_str, True)
    eq('writing twice', rec.to_xml_str(), plain)
    holder = ET.Element('holder')
    expect_ok('write into an element', rec.to_xml, holder)
    eq('elements written', [x.tag for x in holder], ['sunSpecData'])
    eq('document written into an element', ET.tostring(holder[0]).decode('ascii'), plain)
    expect_ok('write standalone', rec.to_xml)
    eq('standalone root', ET.tostring(rec.root).decode('ascii'), plain)
    for what, text in (('document', plain), ('pretty document', pretty)):
        eq(what + ' content', parsed(text), (version, want))
        for way, fn in (('text', lambda: data.SunSpecData(data_record=text)), ('element', lambda: data.SunSpecData(element=ET.fromstring(text)))):
            back = expect_ok('load %s from %s' % (what, way), fn)
            eq('version', back.version, version)
            eq('loaded %s' % what, shown(back), want)
            eq('loaded %s written again' % what, back.to_xml_str(), plain)
            eq('loaded %s written again pretty-printed' % what, back.to_xml_str(True), pretty)
    eq('record after writing', shown(rec), want)
    return plain


OPS = ['device', 'device-ts', 'model-last', 'model-first', 'point-last', 'point-first', 'timestamp', 'reload']


def blank():
    d = dict.fromkeys(DEV + ['timestamp'])
    d['models'] = []
    return d


def families(tier):
    thorough = tier == 'thorough'

    def build(hist):
        rec, want, n = data.SunSpecData(), [], 0
        for k, op in enumerate(hist):
            op = OPS[op] if isinstance(op, int) else op
            if op in ('device', 'device-ts'):
                d = blank()
                kw = {a: '%s%d' % (a, len(want)) for j, a in enumerate(DEV) if (j + len(want)) % 2 == 0}
                d.update(kw)
                if op == 'device-ts':
                    kw['timestamp'] = TIMES[len(want) % len(TIMES)]
                    d['timestamp'] = iso(kw['timestamp'])
                r = expect_ok('device_add', rec.device_add, **kw)
                check(r is rec.device_data[-1], 'device_add does not return the device', 'returned')
                want.append(d)
            elif op.startswith('model'):
                if not want:
                    return None
                j = -1 if op == 'model-last' else 0
                x = sum(1 for m in want[j]['models'] if m['id'] == '103') + 1
                ns = None if x % 2 else 'ns%d' % x
                r = expect_ok('model_add', rec.device_data[j].model_add, 103, x if x > 1 else None, ns)
                check(r is rec.device_data[j].model_data[-1], 'model_add does not return the model', 'returned')
                want[j]['models'].append({'id': '103', 'ns': ns, 'x': x, 'points': []})
            elif op.startswith('point'):
                j = -1 if op == 'point-last' else 0
                if not want or not want[j]['models']:
                    return None
                m, wm = rec.device_data[j].model_data[j], want[j]['models'][j]
                i = len(wm['points'])
                idx, sf = (None, 0, 1, 2)[i % 4], (None, -2, 0, 3)[(i + k) % 4]
                v, t = VALUES[(i + k) % len(VALUES)], (None, '2020-01-01T00:00:00Z')[i % 2]
                r = expect_ok('point_add', m.point_add, 'P%d' % i, v, idx, sf, 'V', 'a desc', t)
                check(r is m.point_data[-1], 'point_add does not return the point', 'returned')
                wm['points'].append(('P%d' % i, None if v is None else str(v), idx, sf, t))
            elif op == 'timestamp':
                if not want:
                    return None
                t = TIMES[len(want[-1]['models']) % len(TIMES)]
                expect_ok('timestamp_add', rec.device_data[-1].timestamp_add, t)
                want[-1]['timestamp'] = iso(t)
            else:
                rec = expect_ok('reload', data.SunSpecData, data_record=rec.to_xml_str(k % 2 == 1))
            n += 1
        return rec, want, n

    def seq_run(hist):
        r = build(hist)
        if r is None:              # needs a device or model first
            return None, 0, []
        rec, want, n = r
        text = round_trip(rec, want)
        loaded = bool(hist) and 'reload' in hist
        return (text, loaded), n + 12, list(OPS)

    # attributes
    def dev_cases():
        for a in DEV:
            for i in range(len(TEXTS)):
                yield {'set': {a: i}, 't': None}
        for a, b in itertools.combinations(DEV, 2):
            for i, j in itertools.product(range(len(TEXTS)), repeat=2):
                yield {'set': {a: i, b: j}, 't': None}
        for mask in range(1 << len(DEV)):
            for t in (None, 2):
                yield {'set': {a: (k + mask) % len(TEXTS) for k, a in enumerate(DEV) if mask >> k & 1}, 't': t}
        for t in range(len(TIMES)):
            yield {'set': {}, 't': t}

    def dev_run(c):
        n = 0
        kw = {a: TEXTS[i] for a, i in c['set'].items()}
        want = blank()
        want.update(kw)
        if c['t'] is not None:
            want['timestamp'] = iso(TIMES[c['t']])
        for how in ('keywords', 'attributes', 'positional', 'version'):
            rec = data.SunSpecData()
            if how == 'attributes':
                d = rec.device_add()
                for a, v in kw.items():
                    setattr(d, a, v)
                if c['t'] is not None:
                    d.timestamp_add(TIMES[c['t']])
            elif how == 'positional':
                ts = None if c['t'] is None else TIMES[c['t']]
                g = kw.get
                d = rec.device_add(g('logger_id'), g('man'), g('mod'), g('sn'), ts, g('cid'), g('device_id'), g('ifc'), g('namespace'))
            else:
                d = rec.device_add(timestamp=None if c['t'] is None else TIMES[c['t']], **kw)
                if how == 'version':
                    rec.version = '1'
            round_trip(rec, [want], '1' if how == 'version' else None)
            n += 8
        return Obs(steps=n, outcome=c)

    IDX, SFS, PT = [None, 0, 1, 2, 10, 255], [None, 0, -2, 3, -10, 10], [None, '2020-02-29T23:59:59Z']

    def point_cases():
        for v in range(len(VALUES)):
            for i in range(len(IDX)):
                for s in range(len(SFS)):
                    for t in range(len(PT)):
                        yield [v, i, s, t]

    def point_run(c):
        v, i, s, t = c
        args = dict(value=VALUES[v], index=IDX[i], sf=SFS[s], time=PT[t])
        n = 0
        for how in ('keywords', 'positional', 'attributes'):
            rec = data.SunSpecData()
            d = rec.device_add(logger_id='L')
            m = d.model_add(103, 2, 'ns')
            m.point_add('before', 1)
            if how == 'keywords':
                m.point_add('Pt', **args)
            elif how == 'positional':
                m.point_add('Pt', args['value'], args['index'], args['sf'], None, None, args['time'])
            else:
                p = m.point_add('Pt')
                for k, x in args.items():
                    setattr(p, k, x)
            m.point_add('after', 'z', sf=-1)
            want = blank()
            want['logger_id'] = 'L'
            want['models'] = [{'id': '103', 'ns': 'ns', 'x': 2, 'points': [
                ('before', '1', None, None, None), ('Pt', None if VALUES[v] is None else str(VALUES[v]), IDX[i], SFS[s], PT[t]),
                ('after', 'z', None, -1, None)]}]
            round_trip(rec, [want])
            n += 8
        return Obs(steps=n, outcome=c)

    MID, MX, MNS = [1, 103, 64001, '160', 65535], [None, 2, 3, 17, 300], [None, 'ns', 'x<&"\u00e9']

    def model_cases():
        for a in itertools.product(range(len(MID)), range(len(MX)), range(len(MNS)), range(3)):
            yield list(a)

    def model_run(c):
        i, x, ns, npts = c
        n = 0
        for how in range(2):
            rec = data.SunSpecData()
            d = rec.device_add(man='M')
            if how:
                m = d.model_add(model_id=MID[i], index=MX[x], namespace=MNS[ns])
            else:
                m = d.model_add(MID[i], MX[x], MNS[ns])
            for k in range(npts):
                m.point_add('P%d' % k, k)
            d.model_add(2)
            want = blank()
            want['man'] = 'M'
            want['models'] = [{'id': str(MID[i]), 'ns': MNS[ns], 'x': MX[x] or 1, 'points': [('P%d' % k, str(k), None, None, None) for k in range(npts)]},
                              {'id': '2', 'ns': None, 'x': 1, 'points': []}]
            round_trip(rec, [want])
            n += 8
        return Obs(steps=n, outcome=c)

    # documents by hand
    DOC = ('<sunSpecData v="1"><d lid="L" ns="n" id="7" if="0" man="M" mod="D" sn="S" t="2020-01-01T00:00:00Z" cid="c"><m id="1"><p id="Mn">x</p>'
           '<p id="A" index="0" sf="-2" t="2020-01-01T00:00:01Z">5</p></m><m id="103" ns="n2" x="2"><p id="W">7</p></m></d><d><m id="4"/></d></sunSpecData>')

    def doc_cases():
        root = ET.fromstring(DOC)
        names = [n.tag for n in root.iter()]
        for i, tag in enumerate(names):
            for new in ('x', 'd', 'm', 'p', 'sunSpecData', tag.upper(), ''):
                if new != tag and (new or i):
                    yield ['rename' if new else 'insert', i, new]
        yield ['good', 0, '']

    def doc_run(c):
        kind, i, new = c
        root = ET.fromstring(DOC)
        nodes = list(root.iter())
        parents = {ch: p for p in nodes for ch in p}
        if kind == 'good':
            rec = data.SunSpecData(data_record=DOC)
            eq('loaded document', ('1', shown(rec)), parsed(DOC))
            out = rec.to_xml_str()
            eq('written document', parsed(out), parsed(DOC))
            eq('document after another round', data.SunSpecData(data_record=out).to_xml_str(), out)
            for attr in [(n, a) for n in nodes for a in n.attrib if (n.tag, a) not in (('p', 'id'), ('m', 'id'))]:
                # the same document without one attribute
                r2 = ET.fromstring(DOC)
                n2 = list(r2.iter())[nodes.index(attr[0])]
                del n2.attrib[attr[1]]
                t2 = ET.tostring(r2).decode()
                eq('document without %s' % attr[1], parsed(data.SunSpecData(data_record=t2).to_xml_str()), parsed(t2))
            return Obs(steps=20, outcome=c)
        if kind == 'rename':
            nodes[i].tag = new
        else:
            p = parents[nodes[i]]
            p.insert(list(p).index(nodes[i]), ET.Element('other'))
        text = ET.tostring(root).decode('ascii')
        expect_exc('document with unexpected element', data.SunSpecDataError, data.SunSpecData, data_record=text)
        expect_exc('element with unexpected element', data.SunSpecDataError, data.SunSpecData, element=root)
        return Obs(steps=2, outcome=c)

    def now_cases():
        yield ['device']
        yield ['none']

    def now_run(c):
        rec = data.SunSpecData()
        d = rec.device_add(man='M')
        if c == ['none']:
            eq('timestamp when none is given', d.timestamp, None)
            return Obs(outcome=c)
        t0 = time.time()
        d.timestamp_add()
        check(d.timestamp in [iso(t) for t in range(int(t0), int(time.time()) + 1)], 'current time: %s' % d.timestamp, 'current time')
        eq('reloaded timestamp', data.SunSpecData(data_record=rec.to_xml_str()).device_data[0].timestamp, d.timestamp)
        return Obs(outcome=c)

    # the time zone of the process is of no account
    ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'XXX-14', 'XXX12', 'IST-5:30', 'NPT-5:45', 'NFT-11AEDT,M10.1.0,M4.1.0/3']
    MORE = TIMES + [1583652600, 1585443600, 1603587599, 1604210400, 1719792000, 2147483648]

    def zone_cases():
        for z in range(len(ZONES)):
            for t in [None] + list(range(len(MORE))):
                yield [z, t]

    def zone_run(c):
        z, t = c
        old = os.environ.get('TZ')
        os.environ['TZ'] = ZONES[z]
        time.tzset()
        try:
            for how in ('add', 'later', 'again'):
                t0 = time.time()
                arg = () if t is None else (MORE[t],)
                rec = data.SunSpecData()
                if how == 'add' and arg:
                    d = rec.device_add(man='M', timestamp=MORE[t])
                else:
                    d = rec.device_add(man='M')
                    if how == 'again':
                        d.timestamp_add(5)
                    d.timestamp_add(*arg)
                if t is None:
                    check(d.timestamp in [iso(x) for x in range(int(t0), int(time.time()) + 1)], 'current time in %s: %s' % (ZONES[z], d.timestamp), 'time zone')
                else:
                    check(d.timestamp == iso(MORE[t]), 'time %s in %s: %s' % (MORE[t], ZONES[z], d.timestamp), 'time zone')
                want = blank()
                want.update(man='M', timestamp=d.timestamp)
                round_trip(rec, [want])
        finally:
            if old is None:
                del os.environ['TZ']
            else:
                os.environ['TZ'] = old
            time.tzset()
        return Obs(steps=27, outcome=c)

    # records that are long
    def large_cases():
        for n in (9, 10, 11, 99, 100, 101, 255, 256, 257, 1000):
            for what in ('devices', 'models', 'points', 'indexes', 'instances', 'text'):
                yield [n, what]

    def large_run(c):
        n, what = c
        rec = data.SunSpecData()
        want = []
        for i in range(n if what == 'devices' else 1):
            d = rec.device_add(man='m%d' % i, timestamp=10 ** 6 * i)
            w = blank()
            w.update(man='m%d' % i, timestamp=iso(10 ** 6 * i))
            want.append(w)
            for j in range(n if what in ('models', 'instances') else 2):
                mid, x = (1000 - j, 2) if what != 'instances' else (7, j + 1)
                m = d.model_add(mid, x)
                ps = []
                for k in range(n if what in ('points', 'indexes') else 1):
                    v = 'v' * n if what == 'text' else n - k
                    pid, ix = ('P%d' % (n - k), None) if what != 'indexes' else ('P', k)
                    m.point_add(pid, v, ix, sf=-(k % 10))
                    ps.append((pid, str(v), ix, -(k % 10), None))
                w['models'].append({'id': str(mid), 'ns': None, 'x': x, 'points': ps})
        round_trip(rec, want)
        return Obs(steps=9, outcome=c)

    # texts of every shape at every place
    PLACES = DEV + ['version', 'model namespace', 'model id', 'point id', 'value', 'time']

    def shape_cases():
        for i in range(len(ref.SHAPES)):
            for p in PLACES:
                yield [i, p]

    def shape_run(c):
        text, place = ref.SHAPES[c[0]], c[1]

        def at(p, other):
            return text if p == place else other
        rec, want = data.SunSpecData(), []
        if place == 'version':
            rec.version = text
        for k in range(2):
            d = rec.device_add(**({place: text} if place in DEV else {'man': 'M'}))
            w = blank()
            w.update({place: text} if place in DEV else {'man': 'M'})
            m = d.model_add(at('model id', 7), namespace=at('model namespace', None))
            m.point_add('before', 1)
            m.point_add(at('point id', 'P'), at('value', 'v'), time=at('time', None))
            m.point_add('after', 'z')
            w['models'] = [{'id': at('model id', '7'), 'ns': at('model namespace', None), 'x': 1, 'points': [
                ('before', '1', None, None, None), (at('point id', 'P'), at('value', 'v'), None, None, at('time', None)), ('after', 'z', None, None, None)]}]
            want.append(w)
        round_trip(rec, want, text if place == 'version' else None)
        return Obs(steps=9, outcome=c)

    # numbers as other programs write them
    WRITTEN = {0: ['0', '00', '000', '+0', '-0', ' 0', '0 '], 7: ['7', '07', '007', '+7', ' 7', '7 ', '\n7', ' 07 '], 8: ['8', '08', '008', '+8', '8\t'],
               10: ['10', '010', '0010', '+10', ' 10 '], -2: ['-2', '-02', '-002', ' -2', '-2 '], -10: ['-10', '-010', ' -10 ']}

    def number_cases():
        for v in WRITTEN:
            for s in range(len(WRITTEN[v])):
                for place in ('x', 'index', 'sf'):
                    if (v >= 0 or place == 'sf') and (place != 'x' or v > 1):
                        yield [v, s, place]

    def number_run(c):
        v, s, place = c
        for again in range(2):
            root = ET.fromstring(DOC)
            e = root.findall('.//m')[1] if place == 'x' else root.findall('.//p')[1]
            e.set(place, WRITTEN[v][s])
            text = ET.tostring(root).decode('ascii')
            rec = expect_ok('record with %s written as %r' % (place, WRITTEN[v][s]), data.SunSpecData, data_record=text)
            d = rec.device_data[0]
            got = d.model_data[1].index if place == 'x' else getattr(d.model_data[0].point_data[1], place)
            eq('%s written as %r' % (place, WRITTEN[v][s]), got, v)
            eq('document with %s written as %r' % (place, WRITTEN[v][s]), parsed(expect_ok('writing', rec.to_xml_str)), parsed(text))
        return Obs(steps=4, outcome=c)

    return [
        Family('numbers', number_cases, number_run, what='indexes and scale factors with signs, leading zeros and blanks'),
        Family('shapes', shape_cases, shape_run, what='texts of %d shapes (blanks, line breaks, markup, scripts, lengths) at every place' % len(ref.SHAPES)),
        Family('large', large_cases, large_run, what='records of up to 1000 devices, models or points, texts of up to 1000 characters'),
        Search('sequences', seq_run, 9 if thorough else 7, what='all sequences of building operations and reloads', merge=True),
        Family('device', dev_cases, dev_run, what='device attributes and timestamps'),
        Family('model', model_cases, model_run, what='model attributes'),
        Family('point', point_cases, point_run, what='point values and attributes'),
        Family('documents', doc_cases, doc_run, what='documents with an unexpected element at every place, and without each attribute'),
        Family('zones', zone_cases, zone_run, what='timestamps under other time zones'),
        Family('now', now_cases, now_run, what='the current time as timestamp'),
    ]
