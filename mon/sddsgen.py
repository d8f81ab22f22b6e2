"""Independent SDDS model: generates files together with the content they hold, and decodes written files.

Written from the SDDS protocol (version 1) description, without using rsbeams.
"""
import math
import re
import struct

FMT = {'double': 'd', 'float': 'f', 'long': 'i', 'short': 'h'}
NUMERIC = ('double', 'float', 'long', 'short')
SYL = ['s', 'beta', 'x', 'xp', 'Sx', 'eta', 'p', 'Charge', 'Particles', 'Pass', 'alpha', 'dCt', 'L', 'Step', 'Name',
       'Element', 'Type', 'max', 'rms', 'q', 'Q']
UNITS = ['m', 's', 'C', 'm$be$nc', 'rad', '1/m$a2$n', '', 'MeV/c', 'm^-1', "m'", 'A, V', 'a=b', '%', ' m ', 'A,V', 'm,', ' ', '\u00b5m', '\u00b0', '\u03bcs', '1', '0', 'none',
         '-', 'unitless', 'None', 'string', 'double']
TEXT = ['x', '$gb$r$bx$n', "x'", 'horizontal position', 'path, length', 'a=b', 'name type units', 'mean of "q"', '"', 'a\\b "c',
         ' ', ' x', "x' ", '  both  ', 'ends with a comma,', ',', ',,x', 'a,b', '\ttab\t', "type=string,name=z,", "'quoted'",
         'rms (x)', '% of total', 'symbol', 'end of & data', '0', 'type=double', '! not a comment',
         '\u03c3_x', 'Gr\u00f6\u00dfe', '\u00c5', 'None', '1', 'm']


class Doc:
    """Content of an SDDS file: the model that reads are compared with."""

    def __init__(self):
        self.params = []      # dicts: name type fixed units symbol description format_string
        self.cols = []
        self.pages = []       # (param values {name: v}, rows [tuple])
        self.mode = 'binary'
        self.no_row_counts = False


def f32(v):
    return struct.unpack('<f', struct.pack('<f', v))[0]


def number(rng, typ, hostile=True):
    if typ == 'long':
        return rng.choice([0, 1, -1, 10, 255, 256, 2560, 2**31 - 1, -2**31, rng.randint(-2**31, 2**31 - 1),
                           rng.randint(-99, 99)])
    if typ == 'short':
        return rng.choice([0, 1, -1, 10, 255, 256, 2**15 - 1, -2**15, rng.randint(-2**15, 2**15 - 1)])
    k = rng.random()
    if not hostile or k < 0.5:
        v = rng.uniform(-1, 1) * 10 ** rng.randint(-12, 12)
    elif k < 0.65:
        v = rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1e-3, 10.0, 1e22, 123456789.0, 2.5])
    elif k < 0.75:
        v = rng.choice([1e-300, -1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308]) if typ == 'double' \
            else rng.choice([1e-38, -3e38, 1e-45])
    elif k < 0.8:
        v = rng.choice([math.inf, -math.inf, math.nan])
    else:
        # Bytes that look like line ends, comments, quotes and header text
        b = bytes(rng.choice(b'\n\r! "&\x00\x0a\x0c\x1c,end') for _ in range(8 if typ == 'double' else 4))
        v = struct.unpack('<' + FMT[typ], b)[0]
    return f32(v) if typ == 'float' else v


def text(rng, binary):
    k = rng.random()
    if k < 0.1:
        return ''
    if k < 0.2:
        return rng.choice(['QUAD', '_BEG_', 'W1', 'a', '0', '-1.5', 'MARK'])
    if k < 0.3:
        return ''.join(rng.choice('abcXYZ 0189_:./') for _ in range(rng.choice([99, 100, 100, 64, 63]))).strip().ljust(3, 'x')
    alphabet = 'abcdefgXYZ0123456789_.:-+#$%*/()[]{}<>=~^@;,' + ('' if k < 0.6 else "   '!&")
    if k > 0.85:
        alphabet += '\n\t"\r' if binary else '""\\\\'
    if 0.55 < k < 0.6 or 0.8 < k < 0.85:
        # characters of one, two, three and four bytes, among them some that count as white space elsewhere
        alphabet = alphabet[:20] + '\xe9\xb5\xb0\xe0\xc5\xa0\x85\u2003\u03b2\u2212\u5149\U0001f52d' * 3
    s = ''.join(rng.choice(alphabet) for _ in range(rng.randint(1, 30)))
    if not binary:
        # leading and trailing white space of unquoted parameters is not significant
        s = s.strip() or 'z'
    return s


def like(rng, binary):
    """Strings of which some differ from earlier ones in one character, in case or at their end only."""
    recent = rng.__dict__.setdefault('recent', [])
    s = text(rng, binary)
    if recent and rng.random() < 0.12:
        s = rng.choice(recent)
        if not binary:
            s = s.replace('\n', ' ').replace('\t', ' ').replace('\r', ' ').strip() or 'z'
        k = rng.randrange(4)
        i = rng.randrange(len(s)) if s else 0
        if k == 0:
            s = s[:i] + rng.choice('abcXYZ019_') + s[i + 1:]
        elif k == 1:
            s = s.swapcase() if len(s.swapcase().encode()) == len(s.encode()) else s
        elif k == 2:
            s = s[:99] + rng.choice('01x')
        elif len(s) > 1 and s[:-1] == s[:-1].strip():
            s = s[:-1]
    recent.append(s)
    if len(recent) > 20:
        recent.pop(rng.randrange(20))
    return s


def value(rng, typ, binary):
    return like(rng, binary) if typ == 'string' else number(rng, typ)


def names(rng, n, used):
    out = []
    while len(out) < n:
        s = ''.join(rng.choice(SYL) for _ in range(rng.randint(1, 2)))
        k = rng.random()
        if k < 0.15:
            s += str(rng.randint(0, 12))
        elif k < 0.25:
            s += rng.choice(['.', ':', '/', '_', '-', '#']) + rng.choice(SYL)
        elif k < 0.32:
            # near the names the reader uses for its own purposes
            s = rng.choice(['row_counts_%s', 'n_row_counts%s', 'record_length%s', 'Row_counts%s', 'no_%s', 'parameters%s',
                            'columns%s', 'data%s', '%s_length', 'no_row_counts%s', 'header%s', '_%s', 'end%s']) % rng.choice(SYL)
        elif k < 0.34:
            # names that the reader uses itself
            s = rng.choice(['record_length', 'row_counts', 'row_counts', '_row_counts'])
        if used and rng.random() < 0.05:
            # names that differ in case only
            s = rng.choice(sorted(used)).swapcase()
        if s not in used:
            used.add(s)
            out.append(s)
    return out


def describe(rng, name, typ):
    d = {'name': name, 'type': typ, 'fixed': None}
    if rng.random() < 0.5:
        d['units'] = rng.choice(UNITS)
    if rng.random() < 0.3:
        d['symbol'] = rng.choice(TEXT)
    if rng.random() < 0.4:
        d['description'] = rng.choice(TEXT)
    for k in ('symbol', 'description', 'units'):
        if k in d and rng.random() < 0.06:
            # the name itself, which is also what programs often put there
            d[k] = name
        elif k in d and rng.random() < 0.04:
            d[k] = ' '.join(rng.choice(TEXT) for _ in range(rng.choice([6, 20, 60]))) or 'm'
    if rng.random() < 0.3:
        d['format_string'] = rng.choice(['%10.3f', '%d', '%s', '%15.8e'])
    return d


def document(rng, mode='binary', pages=None, rows=None, ncols=None, nparams=None, strings=True, uneven=None,
             fixed=True, no_row_counts=False):
    doc = Doc()
    doc.mode = mode
    doc.no_row_counts = no_row_counts
    kinds = list(NUMERIC) + (['string'] * 2 if strings and rng.random() < 0.6 else [])
    if rng.random() < 0.25:
        kinds = ['double']
    ncols = rng.choice([1, 1, 2, 3, 4, 6, 9]) if ncols is None else ncols
    nparams = rng.choice([0, 1, 1, 2, 3, 5, 8]) if nparams is None else nparams
    used = set()
    for n in names(rng, nparams, used):
        d = describe(rng, n, rng.choice(kinds))
        if fixed and rng.random() < 0.2:
            v = value(rng, d['type'], False)
            while isinstance(v, float) and (math.isnan(v) or math.isinf(v)) or \
                    isinstance(v, str) and any(c in v for c in '\n&'):
                v = value(rng, d['type'], False)
            d['fixed'] = v if d['type'] != 'string' or rng.random() < 0.8 else ''
        doc.params.append(d)
    for n in names(rng, ncols, used if rng.random() < 0.5 else set()):
        doc.cols.append(describe(rng, n, rng.choice(kinds)))
        if rng.random() < 0.15:
            doc.cols[-1]['width'] = rng.choice(['0', '8', '-8', '20', '-40', '1', '"12"'])
    npages = rng.choice([1, 1, 1, 2, 3, 5, 8]) if pages is None else pages
    base = rng.choice([0, 1, 1, 2, 3, 7, 10, 33, 100]) if rows is None else rows
    uneven = rng.random() < 0.35 if uneven is None else uneven
    for _ in range(npages):
        n = base if not uneven else max(0, base + rng.choice([0, 0, 1, -1, 2, 5, -base]))
        if not doc.cols:
            n = 0
        doc.pages.append(({p['name']: value(rng, p['type'], mode == 'binary') for p in doc.params if p['fixed'] is None},
                          [tuple(value(rng, c['type'], mode == 'binary') for c in doc.cols) for _ in range(n)]))
    return doc


def string_lengths(doc, rng):
    """Sometimes makes strings longer than the default limit; returns the limit to read the file with (or nothing)."""
    stored = [p['name'] for p in doc.params if p['fixed'] is None and p['type'] == 'string']
    texts = [k for k, c in enumerate(doc.cols) if c['type'] == 'string']
    if not (stored or texts) or rng.random() < 0.75:
        return {}

    def stretch(s):
        n = rng.choice([101, 127, 128, 129, 150, 255, 256, 257, 300])
        return (s + 'lorem_ipsum' * 30)[:n] if rng.random() < 0.4 and s == s.strip() else s

    if rng.random() < 0.7:
        doc.pages = [({k: stretch(v) if k in stored else v for k, v in pv.items()},
                      [tuple(stretch(v) if k in texts else v for k, v in enumerate(r)) for r in rows]) for pv, rows in doc.pages]
    longest = max([len(pv[k]) for pv, _ in doc.pages for k in stored] +
                  [len(r[k]) for _, rows in doc.pages for r in rows for k in texts] + [1])
    return {'max_string_length': longest + rng.choice([0, 0, 1, 50])}


def quoted(s):
    """Quotes inside of a quoted string are escaped."""
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def quote(s, rng, force=False):
    if force or rng.random() < 0.7 or not s or any(c in s for c in ' ,=&!\'"\\') or s != s.strip():
        return quoted(s)
    return s


def fixed_text(d, rng):
    if d['type'] == 'string':
        return quoted(d['fixed'])
    return repr(d['fixed'])


def header(doc, rng, style=None):
    """Header text.  Entries are separated by a comma, most often with white space."""
    nl = '\n'
    out = 'SDDS1\n'
    if doc.mode == 'binary' or rng.random() < 0.3:
        out += '!# little-endian\n'
    if rng.random() < 0.3:
        out += '&description text=%s, contents="%s", &end\n' % (quoted(rng.choice(TEXT)), rng.choice(['phase space', 'x, y']))
    if rng.random() < 0.1:
        out += '&associate filename="a.ele", path="/x", contents="elegant input, parent", sdds=0 &end\n'
    items = [('&parameter', d) for d in doc.params] + [('&column', d) for d in doc.cols]
    for tag, d in items:
        fields = [('name', quote(d['name'], rng) if rng.random() < 0.1 else d['name']), ('type', d['type'])]
        for k in ('units', 'symbol', 'description', 'format_string'):
            if k in d:
                fields.append((k, quote(d[k], rng)))
        if 'width' in d:
            fields.append(('field_length', d['width']))
        if d.get('fixed') is not None:
            fields.append(('fixed_value', fixed_text(d, rng)))
        if rng.random() < 0.3:
            rng.shuffle(fields)
        layout = rng.random()
        if rng.random() < 0.12:
            # white space around the equals sign
            fields = [(k + rng.choice(['', ' ', '  ', '\t']), rng.choice([' ', ' ', '', '  ', '\t']) + v) for k, v in fields]
        if rng.random() < 0.1:
            out += '! a comment about &column and &data lines\n'
        if layout < 0.75:
            sep = rng.choice([', ', ', ', ', ', ',', ' ,', ',\t', ',  '])
            out += tag + ' ' + sep.join('%s=%s' % f for f in fields) + (', ' if rng.random() < 0.6 else ' ') + '&end\n'
        elif layout < 0.85:
            out += tag + nl + ''.join('   %s=%s,%s' % (f + (nl,)) for f in fields) + '&end\n'
        else:
            # lines may end after any field, with comments and empty lines in between
            out += rng.choice(['', '', ' ', '\t', '    ']) + tag
            for k, f in enumerate(fields):
                out += rng.choice([' ', ' ', '\n', '\n  ', '\n\n', '\n! comment with "quote, a=b and &end\n ', ' ! type=short, units="comment\n', '\n  ! name=z, \n']) + '%s=%s' % f
                out += rng.choice([',', ',', ' ,', ', ']) if k < len(fields) - 1 else rng.choice([',', ', ', ''])
            out += rng.choice([' &end', '\n&end', '\n  &end', ' &end  ', '\n\t&end \t', '\n!&end\n&end ! end']) + nl
        if rng.random() < 0.05:
            out += rng.choice(['\n', '\n\n', '!\n', '  \n', ' ! units=m\n'])
    out += rng.choice([''] * 12 + [' ', '\t', '   ', '! comment\n', '\n']) + '&data mode%s%s, ' % (rng.choice(['='] * 9 + [' = ', ' =', '= ']), doc.mode)
    if doc.no_row_counts:
        out += 'no_row_counts=1, '
    elif doc.mode == 'ascii' and rng.random() < 0.2:
        out += 'no_row_counts=0, '
    return out + rng.choice([''] * 12 + ['\n', '\n   ', '! comment, mode=other\n']).join(['', '']) + '&end\n'


def num_text(v, typ, rng):
    if typ in ('long', 'short'):
        return str(v)
    if math.isnan(v):
        return 'nan'
    if math.isinf(v):
        return 'inf' if v > 0 else '-inf'
    k = rng.random()
    if k < 0.5:
        return repr(v)
    return '%.17e' % v if k < 0.8 else '%.18E' % v


def encode_header(text, rng):
    """UTF-8, or Latin-1 where the characters allow it and it cannot be taken for UTF-8."""
    lines = []
    for line in re.findall('[^\n]*\n|[^\n]+', text):
        lines.append(to_bytes(line, rng))
    return b''.join(lines)


def to_bytes(text, rng=None):
    raw = text.encode()
    if rng is not None and len(raw) > len(text) and rng.random() < 0.5:
        # no run of characters may be valid UTF-8 as well
        if all(not utf8(run) for run in re.findall('[^\0-\x7f]+', text)):
            raw = text.encode('latin-1')
    return raw


def utf8(run):
    """Whether the characters are not in Latin-1, or their Latin-1 bytes are UTF-8."""
    try:
        run.encode('latin-1').decode()
    except UnicodeDecodeError:
        return False
    except UnicodeEncodeError:
        pass
    return True


def encode(doc, rng):
    """Returns bytes, and the offsets at which pages start (the last entry is the end of the file)."""
    out = encode_header(header(doc, rng), rng)
    offsets = [len(out)]
    for pv, rows in doc.pages:
        b = []
        if doc.mode == 'binary':
            b.append(struct.pack('<i', getattr(rows, 'told', len(rows))))
            for p in doc.params:
                if p['fixed'] is None:
                    b.append(enc_value(p['type'], pv[p['name']], rng))
            for r in rows:
                for c, v in zip(doc.cols, r):
                    b.append(enc_value(c['type'], v, rng))
        else:
            # With row counts, blank lines have no meaning
            gaps = not doc.no_row_counts and rng.random() < 0.15
            gap = lambda: b.append(rng.choice([b'\n', b'\n', b'  \n', b'\n\n'])) if gaps and rng.random() < 0.2 else None
            if rng.random() < 0.5:
                b.append(b'! page number %d\n' % (len(offsets)))
            for p in doc.params:
                if p['fixed'] is None:
                    v = pv[p['name']]
                    gap()
                    if p['type'] == 'string':
                        t = quoted(v) if (v == '' or any(ch in v for ch in '!"\\\\') or v != v.strip() or rng.random() < 0.5) else v
                    else:
                        t = num_text(v, p['type'], rng)
                    if rng.random() < 0.05:
                        t += '   ! trailing comment'
                    b.append(to_bytes(t, rng) + b'\n')
                    if rng.random() < 0.05:
                        b.append(b'! a comment line\n')
            if doc.cols and not doc.no_row_counts:
                gap()
                b.append((' ' * rng.choice([0, 0, 7]) + '%d%s\n' % (getattr(rows, 'told', len(rows)), rng.choice([''] * 9 + [' ! number of rows']))).encode())
            for r in rows:
                gap()
                cells = []
                for c, v in zip(doc.cols, r):
                    if c['type'] == 'string':
                        cells.append(quoted(v) if (v == '' or any(ch in v for ch in ' \t!"\\\\') or rng.random() < 0.2) else v)
                    else:
                        cells.append(num_text(v, c['type'], rng))
                line = rng.choice([' ', ' ', '  ', '\t']).join(cells)
                if rng.random() < 0.2:
                    line = ' ' + line + ' '
                if rng.random() < 0.02:
                    line += ' ! row'
                b.append(to_bytes(line, rng) + b'\n')
                if rng.random() < 0.03:
                    b.append(b'!comment 1 2 3\n')
            if doc.no_row_counts:
                b.append(b'\n')
        out += b''.join(b)
        offsets.append(len(out))
    return out, offsets


def enc_value(typ, v, rng=None):
    if typ == 'string':
        e = to_bytes(v, rng)
        return struct.pack('<i', len(e)) + e
    return struct.pack('<' + FMT[typ], v)


# --- comparison of what was read with the model ----------------------------------------------------------------------

def same(typ, want, got, exact=True):
    if typ == 'string':
        return isinstance(got, str) and got == want
    if typ in ('long', 'short'):
        return int(got) == want and float(got) == float(want)
    got = float(got)
    if math.isnan(want):
        return math.isnan(got)
    if got == want and math.copysign(1, got) == math.copysign(1, want):
        return True
    return False


DTYPE = {'double': 'f8', 'float': 'f4', 'long': 'i4', 'short': 'i2'}


def compare(doc, reader, pages=None):
    """None, or a description of the first difference between a readSDDS object and the pages of the model."""
    import numpy as np
    pages = list(range(len(doc.pages))) if pages is None else pages
    stored = [p for p in doc.params if p['fixed'] is None]
    if stored:
        data = reader.parameters
        if len(data) != len(pages):
            return 'parameters hold %d pages, expected %d' % (len(data), len(pages))
        for i, pg in enumerate(pages):
            for p in stored:
                got = np.asarray(data[i][p['name']]).reshape(-1)
                if got.size != 1:
                    return 'parameter %s has %d values on a page' % (p['name'], got.size)
                want = doc.pages[pg][0][p['name']]
                if not same(p['type'], want, got[0]):
                    return 'parameter %r (%s) of page %d is %r, file has %r' % (p['name'], p['type'], pg, got[0], want)
                if p['type'] in DTYPE and got.dtype != np.dtype(DTYPE[p['type']]):
                    return 'parameter %r declared %s is read as %s' % (p['name'], p['type'], got.dtype)
    if doc.cols:
        data = reader.columns
        if len(data) != len(pages):
            return 'columns hold %d pages, expected %d' % (len(data), len(pages))
        even = len({len(doc.pages[pg][1]) for pg in pages}) == 1
        for i, pg in enumerate(pages):
            rows = doc.pages[pg][1]
            for k, c in enumerate(doc.cols):
                got = np.asarray(data[i][c['name']]).reshape(-1)
                if got.size != len(rows):
                    return 'column %r of page %d has %d rows, file has %d' % (c['name'], pg, got.size, len(rows))
                if c['type'] in DTYPE and got.dtype != np.dtype(DTYPE[c['type']]):
                    return 'column %r declared %s is read as %s' % (c['name'], c['type'], got.dtype)
                for j, (r, g) in enumerate(zip(rows, got)):
                    if not same(c['type'], r[k], g):
                        return 'column %r (%s) page %d row %d is %r, file has %r' % (c['name'], c['type'], pg, j, g, r[k])
                if even:
                    # the documented access by name gives an array (pages, rows)
                    other = np.asarray(data[c['name']])
                    if other.shape[:2] != (len(pages), len(rows)):
                        return 'columns[%r] has shape %s, expected %s' % (c['name'], other.shape, (len(pages), len(rows)))
    return None


# --- independent decoder of files written by rsbeams -----------------------------------------------------------------

def tokens(s):
    """Entries of a namelist, split at commas / white space outside of double quotes; quotes and escapes resolved."""
    out, cur, q, esc = [], None, False, False
    for ch in s:
        if esc:
            cur, esc = cur + ch, False
        elif ch == '\\':
            cur, esc = cur or '', True
        elif ch == '"':
            cur, q = cur or '', not q
        elif not q and (ch == ',' or ch.isspace()):
            if cur is not None:
                out.append(cur)
            cur = None
        else:
            cur = (cur or '') + ch
    if cur is not None:
        out.append(cur)
    if q or esc:
        raise ValueError('quotation does not end in %r' % s)
    return out


def row(line):
    """Entries of a row of ASCII data as (quoted, text); white space and comments only count outside of quotes."""
    out = []
    for m in re.finditer(r'[ \t]*(?:"((?:[^"\\]|\\.)*)"(?=[ \t]|$)|([^ \t"!\\]+)|(!.*))', line):
        if m.group(3) is not None:
            break
        out.append((True, re.sub(r'\\(.)', r'\1', m.group(1))) if m.group(2) is None else (False, m.group(2)))
    else:
        rest = re.sub(r'[ \t]*(?:"(?:[^"\\]|\\.)*"(?=[ \t]|$)|[^ \t"!\\]+|!.*)', '', line).strip()
        if rest:
            raise ValueError('row of data %r' % line)
    return out


def cell(line):
    """The value on a line of its own: all of the line, unless it is quoted."""
    entries = row(line) if '"' in line or '!' in line else [(False, line.strip())]
    if len(entries) != 1 or not (entries[0][0] or entries[0][1]):
        raise ValueError('parameter line %r' % line)
    return entries[0]


def decode(data):
    """Strict decoder: returns (params, cols, mode, [page]) and raises ValueError on anything that is not SDDS1."""
    pos = data.index(b'\n') + 1
    if data[:pos].strip() != b'SDDS1':
        raise ValueError('first line %r' % data[:pos])
    params, cols, mode, nrc = [], [], None, False
    endian = '<'
    while mode is None:
        end = data.index(b'\n', pos) + 1
        line = data[pos:end].decode()
        pos = end
        if line.startswith('!'):
            if 'big-endian' in line:
                endian = '>'
            continue
        while '&end' not in line:
            end = data.index(b'\n', pos) + 1
            line += data[pos:end].decode()
            pos = end
        tag, rest = line.split(None, 1)
        body = rest[:rest.rindex('&end')]
        fields = {}
        for t in tokens(body):
            k, eq, v = t.partition('=')
            if not eq:
                raise ValueError('header entry %r' % t)
            fields[k] = v
        if tag == '&parameter':
            params.append(fields)
        elif tag == '&column':
            cols.append(fields)
        elif tag == '&data':
            mode = fields['mode']
        else:
            raise ValueError('unknown namelist %s' % tag)
    stored = [p for p in params if 'fixed_value' not in p]
    page = {}
    if mode == 'binary':
        def take(typ):
            nonlocal pos
            if typ == 'string':
                n = take('long')
                if n < 0 or pos + n > len(data):
                    raise ValueError('string of %d bytes' % n)
                pos += n
                return data[pos - n:pos].decode()
            fmt = FMT[typ]
            size = struct.calcsize(endian + fmt)
            if pos + size > len(data):
                raise ValueError('data too short')
            v = struct.unpack_from(endian + fmt, data, pos)[0]
            pos += size
            return v
        n = take('long')
        pvals = {p['name']: take(p['type']) for p in stored}
        rows = [tuple(take(c['type']) for c in cols) for _ in range(n)]
        if pos != len(data):
            raise ValueError('%d bytes after the data' % (len(data) - pos))
    else:
        lines = [ln for ln in data[pos:].decode().split('\n')]
        if lines and lines[-1] == '':
            lines.pop()
        conv = {t: (int if t in ('long', 'short') else float) for t in NUMERIC}
        conv = dict({t: (lambda e, f=f: f(e[1])) for t, f in conv.items()}, string=lambda e: e[1])
        it = iter(lines)
        try:
            pvals = {p['name']: conv[p['type']](cell(next(it))) for p in stored}
            n = int(next(it)) if cols else 0
            rows = []
            for _ in range(n):
                cells = row(next(it))
                if len(cells) != len(cols):
                    raise ValueError('row has %d cells' % len(cells))
                rows.append(tuple(conv[c['type']](x) for c, x in zip(cols, cells)))
        except StopIteration:
            raise ValueError('data too short')
        rest = [ln for ln in it if ln.strip()]
        if rest:
            raise ValueError('lines after the data: %r' % rest[:2])
    return params, cols, mode, (pvals, rows)
