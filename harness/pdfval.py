"""Values: a canonical form in which library values, scanned values and planned values are compared.

Values are written in the library's representation ('/Name' str, bytes with delimiters for strings, complex for
references, int, float, bool, None or 'null', list, dict) except streams, which are any object with entries/data."""
import re


class St:
    """A stream: entries, decoded data (raw data when the filter is not supported)."""
    def __init__(self, entries, data, raw=None):
        self.entries, self.data, self.raw = entries, data, raw

    def __repr__(self):
        return f'St({self.entries!r}, {self.data!r})'

    def __eq__(self, o):
        return type(o) is St and (self.entries, self.data) == (o.entries, o.data)


SUPPORTED = ('/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode')
_ESC = {ord('n'): 10, ord('r'): 13, ord('t'): 9, ord('b'): 8, ord('f'): 12}


def string_content(raw):
    """Bytes denoted by a literal or hexadecimal string (delimiters included in raw)."""
    if raw[:1] == b'<':
        h = bytes(c for c in raw[1:-1] if c not in b' \t\r\n\f\0')
        return bytes.fromhex((h + b'0' * (len(h) % 2)).decode('latin-1'))
    out, i, s = bytearray(), 0, raw[1:-1]
    while i < len(s):
        c = s[i]
        if c == 92:
            i += 1
            if i >= len(s):
                break
            c = s[i]
            if c in _ESC:
                out.append(_ESC[c])
            elif 48 <= c <= 55:
                n, k = 0, 0
                while k < 3 and i < len(s) and 48 <= s[i] <= 55:
                    n, k, i = n * 8 + s[i] - 48, k + 1, i + 1
                out.append(n & 255)
                continue
            elif c == 13:
                if s[i + 1:i + 2] == b'\n':
                    i += 1
            elif c == 10:
                pass
            else:
                out.append(c)
        elif c == 13:
            out.append(10)
            if s[i + 1:i + 2] == b'\n':
                i += 1
        else:
            out.append(c)
        i += 1
    return bytes(out)


def _names(f):
    return f.split() if isinstance(f, str) else f


def canon(v, ref=lambda r: ('r', int(r.imag), int(r.real)), drop=()):
    """Canonical, comparable form. ref maps a complex reference to its canonical form (None: dead -> null)."""
    if v is None or (isinstance(v, str) and v == 'null'):
        return None
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, (int, float)):
        return ('#', float(v)) if isinstance(v, float) and v != int(v) else ('#', int(v))
    if isinstance(v, complex):
        return ref(v)
    if isinstance(v, (bytes, bytearray)):
        return ('s', string_content(bytes(v)).hex())
    if isinstance(v, str):
        return ('n', v)
    if isinstance(v, (list, tuple)):
        return ('a',) + tuple(canon(x, ref, drop) for x in v)
    if isinstance(v, dict):
        items = [(k, canon(x, ref, drop)) for k, x in v.items() if k not in drop]
        return ('d',) + tuple(sorted(i for i in items if i[1] is not None))
    if hasattr(v, 'entries'):
        e = v.entries
        f = e.get('/Filter')
        unsupported = f is not None and not (isinstance(f, (str, list))
                                             and all(isinstance(x, str) and x in SUPPORTED for x in _names(f)))
        skip = {'/Length'} if unsupported else {'/Length', '/Filter', '/DecodeParms'}
        if unsupported:
            d = v.raw if isinstance(v, St) and v.raw is not None else (v.data if isinstance(v, St) else v.encoded)
        else:
            d = v.data if isinstance(v, St) else v.stream
        return ('st', canon({k: x for k, x in e.items() if k not in skip}, ref, drop), bytes(d).hex())
    return ('?', repr(v))
