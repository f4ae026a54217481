"""UTF-16 reference coding, independent of the codec error handlers."""


def units(s):
    out = []
    for ch in s:
        c = ord(ch)
        if c > 0xffff:
            c -= 0x10000
            out += [0xd800 | c >> 10, 0xdc00 | c & 0x3ff]
        else:
            out.append(c)
    return out


def enc(s):
    """Little-endian code units of s; lone surrogates allowed."""
    return b"".join(u.to_bytes(2, "little") for u in units(s)) if not s.isascii() else \
        b"".join(bytes((b, 0)) for b in s.encode("ascii"))


def dec_units(us, stop_at_nul=True):
    out = []
    i = 0
    while i < len(us):
        u = us[i]
        if u == 0 and stop_at_nul:
            break
        if 0xd800 <= u < 0xdc00:
            if i + 1 < len(us) and 0xdc00 <= us[i + 1] < 0xe000:
                out.append(chr(0x10000 + ((u & 0x3ff) << 10) + (us[i + 1] & 0x3ff)))
                i += 2
                continue
            out.append("\ufffd")
        elif 0xdc00 <= u < 0xe000:
            out.append("\ufffd")
        else:
            out.append(chr(u))
        i += 1
    return "".join(out)


def shown(s):
    """What a reader must show for the recorded text s: up to the first NUL, unpaired surrogates replaced."""
    if s.isascii():
        i = s.find("\0")
        return s if i < 0 else s[:i]
    return dec_units(units(s))
