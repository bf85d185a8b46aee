import sys
from xml.parsers import expat
inp, out = sys.stdin.buffer, sys.stdout.buffer
def parse(data, ns):
    ev = []
    p = expat.ParserCreate(namespace_separator='\x0e') if ns else expat.ParserCreate()
    p.buffer_text = True
    p.ordered_attributes = False
    # expanded name first: "uri \x0e local"
    def start(name, attrs):
        ev.append('\x01' + name)
        if not ns:
            for k in sorted(attrs, key=lambda s: s.encode('utf-8')):
                ev.append('\x02' + k + '\x03' + attrs[k])
    p.StartElementHandler = start
    p.EndElementHandler = lambda name: ev.append('\x04')
    state = {'cd': False, 'buf': []}
    def text(t):
        if state['cd']:
            state['buf'].append(t)
        elif ev and ev[-1].startswith('\x05'):
            ev[-1] += t
        else:
            ev.append('\x05' + t)
    p.CharacterDataHandler = text
    depth = [0]
    def comment(t):
        ev.append('\x06' + t)
    p.CommentHandler = comment
    def cs():
        state['cd'] = True
        state['buf'] = []
    def ce():
        state['cd'] = False
        ev.append('\x07' + ''.join(state['buf']))
    p.StartCdataSectionHandler = cs
    p.EndCdataSectionHandler = ce
    # comments inside the DTD are not content
    p.StartDoctypeDeclHandler = lambda *a: setattr(p, 'CommentHandler', None)
    p.EndDoctypeDeclHandler = lambda: setattr(p, 'CommentHandler', comment)
    p.Parse(data, True)
    return ''.join(ev)
while True:
    h = inp.read(5)
    if len(h) < 5:
        break
    n = int.from_bytes(h[1:5], 'little')
    data = inp.read(n)
    try:
        r = b'K' + parse(data, h[0] == 1).encode('utf-8')
    except expat.ExpatError as e:
        r = b'E' + str(e).encode('utf-8')
    except Exception as e:
        r = b'X' + repr(e).encode('utf-8')
    out.write(len(r).to_bytes(4, 'little') + r)
    out.flush()
