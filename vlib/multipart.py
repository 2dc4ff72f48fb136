"""Independent multipart/form-data encoder and reference scanner (RFC 2046 / 7578)."""

BOUNDARIES = ['b', 'ab', 'X-Y', '-', '--', '-b', 'b-', '----WebKitFormBoundary7MA4YWxkTrZu0gW', '0' * 70, 'aab', 'aa', 'abcabcabd',
              "a'()+_,-./:=?z", 'b\x2db--', '=_Part_1', '--qqaassqqasas', 'name="x"'.replace('"', ''), 'Content-Disposition']


class Part:
    """name/filename: text; data: bytes; filename None = text field; ctype None = no Content-Type header."""

    def __init__(self, name, data, filename=None, ctype=None, extra=(), style=0):
        self.name, self.data, self.filename, self.ctype, self.extra, self.style = name, data, filename, ctype, tuple(extra), style

    def key(self):
        return (self.name, self.data, self.filename, self.ctype, self.extra, self.style)

    def header_lines(self):
        st = self.style
        disp = 'Content-Disposition: form-data; name="%s"' % self.name
        if self.filename is not None:
            disp += '; filename="%s"' % self.filename
        if st == 1:
            disp = 'content-disposition:form-data;name="%s"' % self.name
            if self.filename is not None:
                disp += ';filename="%s"' % self.filename
        elif st == 2 and self.filename is not None:
            disp = 'CONTENT-DISPOSITION: form-data; filename="%s"; name="%s"' % (self.filename, self.name)
        lines = [disp]
        if self.ctype is not None:
            lines.append('%s: %s' % ('content-type' if st == 1 else 'Content-Type', self.ctype))
        lines.extend(self.extra)
        if st == 3:
            lines.reverse()
        return lines

    def headers(self):
        return '\r\n'.join(self.header_lines()).encode('utf8')


def encode(parts, boundary, lead=b'', close=b'\r\n', epilogue=b''):
    """-> (body, [(header range, data range)])"""
    b = boundary.encode('latin1')
    out = bytearray(lead)
    rng = []
    for i, p in enumerate(parts):
        if i:
            out += b'\r\n'
        out += b'--' + b + b'\r\n'
        h0 = len(out)
        out += p.headers()
        h1 = len(out)
        out += b'\r\n\r\n'
        d0 = len(out)
        out += p.data
        rng.append(((h0, h1), (d0, len(out))))
    if parts:
        out += b'\r\n'
    out += b'--' + b + b'--' + close + epilogue
    return bytes(out), rng


def usable(boundary, datas):
    """The boundary line must not occur inside any content (nor be completed by what follows it)."""
    tok = b'\r\n--' + boundary.encode('latin1')
    for d in datas:
        if tok in b'\r\n' + d + b'\r\n':
            # occurs in the content, or straddles its end
            return False
    return True


def lookalikes(boundary):
    t = b'\r\n--' + boundary.encode('latin1')
    out = [b'\r', b'\n', b'\r\n', b'\r\r\n', b'-', b'--', b'\r\n-', b'\r\n--', b'\n--', b'\r\n\r\n', b'\r\n\r', t[:-1], t[1:], t[2:],
           t[:-1] + b'\r', t[2:] + b'--', b'\r' + t[:-1], b'\r\n' + t[:-1], b'\n' + t[2:], t[:len(t) // 2] * 2, b'\r\n' * 3, b'x', b'\0',
           t[:-1] + t[:-1], t[:-1] + b'\n' + t[2:], b'\r\n-' + t[2:], b'\xff\xfe', b'a=b;c', b'Content-Disposition: form-data; name="q"\r\n\r\nv']
    return [x for x in out if x]
