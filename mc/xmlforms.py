"""Other ways of writing one XML document: the same elements, attributes and texts for every XML parser."""
import itertools
import xml.etree.ElementTree as ET

ESC = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}


def esc(s):
    return ''.join(ESC.get(c, c) for c in s)


def ref10(s):
    return ''.join('&#%d;' % ord(c) for c in s)


def ref16(s):
    return ''.join('&#x%X;' % ord(c) for c in s)


COMMENT, PI = '<!-- <point id="A">9</point> - > -->', '<?note <point id="A">9</point>?>'
INSERT = {'comment': COMMENT, 'instruction': PI, 'empty comment': '<!---->', 'cdata': '<![CDATA[]]>'}

# name -> options of the writer
STYLES = {
    'plain': {}, 'single quotes': {'quote': "'"}, 'attributes reversed': {'order': -1}, 'attributes sorted': {'order': 0}, 'attributes on lines': {'sep': '\n\t'},
    'blanks in tags': {'sep': '  ', 'close': ' ', 'eq': ' = '}, 'no blanks between elements': {'blank': ''}, 'blanks between elements': {'blank': '\n\t  \n'},
    'empty elements closed': {'empty': False}, 'empty elements short': {'empty': True}, 'cdata': {'text': lambda s: '<![CDATA[%s]]>' % s},
    'cdata by character': {'text': lambda s: ''.join('<![CDATA[%s]]>' % c for c in s)}, 'references': {'text': ref10, 'value': ref10},
    'hexadecimal references': {'text': ref16, 'value': ref16}, 'references in texts': {'text': ref10}, 'references in attributes': {'value': ref16},
    'every second character a reference': {'text': lambda s: ''.join(esc(c) if i % 2 else ref10(c) for i, c in enumerate(s)),
                                           'value': lambda s: ''.join(ref16(c) if i % 2 else esc(c) for i, c in enumerate(s))},
    'entities': {'entities': True}, 'document type': {'head': '<!DOCTYPE %(root)s>'}, 'document type and elements': {'head': '<!DOCTYPE %(root)s [<!ELEMENT %(root)s ANY><!-- x -->]>'},
    'comment before': {'head': COMMENT}, 'comment after': {'tail': '\n' + COMMENT + '\n'}, 'instructions around': {'head': '<?xml-stylesheet href="x.xsl"?>', 'tail': PI},
    'declaration': {'head': '<?xml version="1.0"?>'}, 'standalone': {'head': '<?xml version="1.0" standalone="yes"?>\n\n'},
    'unknown attributes': {'more': ' note="x" xml:lang="en" n2=""'}, 'unknown name space': {'rootmore': ' xmlns:o="urn:other"', 'more': ' o:id="9" o:len="9" o:type="x"'},
    'schema location': {'rootmore': ' xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="x.xsd"'},
    'root spaced': {'tail': '\n\n \t'},
}


def write(doc, style='plain', sites=()):
    """The document in a style; sites: [(number of the place, text to insert there)]. Returns (text, number of places)."""
    root = ET.fromstring(doc)
    o = STYLES[style]
    sites = dict(sites)
    n = itertools.count()
    entities = []

    def place():
        return sites.get(next(n), '')

    def text(s):
        if o.get('entities') and s.strip():
            entities.append(s)
            return '&t%d;' % (len(entities) - 1)
        return o.get('text', esc)(s)

    def value(s):
        if o.get('entities') and s.strip():
            entities.append(s)
            return '&t%d;' % (len(entities) - 1)
        return o.get('value', esc)(s)

    def blank(s):
        return text(s) if s and s.strip() else o.get('blank', s or '')

    def element(e, top=False):
        a = list(e.attrib.items())
        if o.get('order') == -1:
            a.reverse()
        elif o.get('order') == 0:
            a.sort()
        q, sep = o.get('quote', '"'), o.get('sep', ' ')
        tag = '<' + e.tag + ''.join(sep + k + o.get('eq', '=') + q + value(v) + q for k, v in a) + (o.get('rootmore', '') if top else '') + o.get('more', '') + o.get('close', '')
        end = '</%s%s>' % (e.tag, o.get('close', ''))
        if len(e):
            s = tag + '>'
            for c in e:
                s += place() + blank(e.text if c is e[0] else '') + element(c) + blank(c.tail)
            return s + place() + end
        if e.text:
            s, half = tag + '>' + place(), len(e.text) // 2
            s += text(e.text[:half]) + place() + text(e.text[half:]) if half else text(e.text)
            return s + place() + end
        ins = place()
        if ins or not o.get('empty'):
            return tag + '>' + ins + end
        return tag + '/>'

    body = place() + element(root, True) + place()
    head = o.get('head', '') % {'root': root.tag} if '%(' in o.get('head', '') else o.get('head', '')
    if entities:
        head += '<!DOCTYPE %s [%s]>' % (root.tag, ''.join("<!ENTITY t%d '%s'>" % (i, ''.join({'&': '&#38;#38;', '<': '&#38;#60;', '%': '&#37;', "'": '&#39;'}.get(c, c) for c in x)) for i, x in enumerate(entities)))
    return head + body + o.get('tail', ''), next(n)
