"""Independent writer and walker for the eventio container format.

Nothing in here imports the code under test.
"""
import gzip
import io
import struct
import zlib

import zstandard

SYNC_LE = b"\x37\x8a\x1f\xd4"
SYNC_BE = b"\xd4\x1f\x8a\x37"


class Node:
    """An object to be written: either payload bytes or a list of child nodes"""

    __slots__ = ("type", "id", "version", "user", "extended", "payload", "children",
                 "value", "address", "size", "header_size", "start", "toplevel", "level", "tag")

    def __init__(self, type, id=0, version=0, payload=b"", children=None, user=False,
                 extended=False, value=None, tag=None):
        self.type = type
        self.id = id
        self.version = version
        self.user = user
        self.extended = extended
        self.payload = payload
        self.children = children
        self.value = value      # expected result of decoding, set by spec generators
        self.tag = tag

    @property
    def sub(self):
        return self.children is not None

    def __repr__(self):
        return f"Node({self.type}, id={self.id}, v={self.version}, sub={self.sub})"


def header_bytes(type, id, version, user, extended, size, sub, toplevel):
    word = (type & 0xFFFF) | (bool(user) << 16) | (bool(extended) << 17) | ((version & 0xFFF) << 20)
    low = size & 0x3FFFFFFF
    high = size >> 30
    if high and not extended:
        raise ValueError("size needs extension")
    out = (SYNC_LE if toplevel else b"") + struct.pack("<IiI", word, id, low | (bool(sub) << 30))
    if extended:
        out += struct.pack("<I", high)
    return out


def encode(node, toplevel=True, start=0, level=0):
    """Encode to bytes and annotate node (and children) with absolute positions"""
    hs = 12 + 4 * bool(toplevel) + 4 * bool(node.extended)
    node.start, node.header_size, node.toplevel, node.level = start, hs, toplevel, level
    node.address = start + hs
    if node.children is None:
        content = bytes(node.payload)
    else:
        parts, pos = [], node.address
        for c in node.children:
            b = encode(c, False, pos, level + 1)
            pos += len(b)
            parts.append(b)
        content = b"".join(parts)
    node.size = len(content)
    return header_bytes(node.type, node.id, node.version, node.user, node.extended,
                        len(content), node.sub, toplevel) + content


def encode_file(nodes):
    parts, pos = [], 0
    for n in nodes:
        b = encode(n, True, pos)
        pos += len(b)
        parts.append(b)
    return b"".join(parts)


def walk(nodes, level=0):
    """depth first: (node, level)"""
    for n in nodes:
        yield n, level
        if n.children is not None:
            yield from walk(n.children, level + 1)


# ------------------------------------------------------------- parsing existing data
class Truncated(Exception):
    pass


def parse_header(data, pos, toplevel):
    start = pos
    if toplevel:
        s = data[pos:pos + 4]
        if s != SYNC_LE:
            raise ValueError(f"bad sync at {pos}")
        pos += 4
    if len(data) < pos + 12:
        raise Truncated
    word, ident, length = struct.unpack_from("<IiI", data, pos)
    pos += 12
    ext = bool(word >> 17 & 1)
    size = length & 0x3FFFFFFF
    if ext:
        if len(data) < pos + 4:
            raise Truncated
        size += (struct.unpack_from("<I", data, pos)[0] & 0xFFF) << 30
        pos += 4
    n = Node(word & 0xFFFF, ident, word >> 20, user=bool(word >> 16 & 1), extended=ext)
    n.start, n.header_size, n.address, n.size, n.toplevel = start, pos - start, pos, size, toplevel
    return n, bool(length >> 30 & 1)


def parse_tree(data, start=0, end=None, toplevel=True, level=0):
    """Independent walker: list of nodes with payload/children filled"""
    end = len(data) if end is None else end
    pos, out = start, []
    while pos < end:
        n, sub = parse_header(data, pos, toplevel)
        n.level = level
        if n.address + n.size > end:
            raise Truncated
        if sub:
            n.children = parse_tree(data, n.address, n.address + n.size, False, level + 1)
        else:
            n.payload = data[n.address:n.address + n.size]
        out.append(n)
        pos = n.address + n.size
    return out


# ------------------------------------------------------------- containers
def gz_member(data, level=6, name=None, mtime=0, extra=None, comment=None):
    """One gzip member with optional header fields, written by hand"""
    flags = (4 if extra is not None else 0) | (8 if name is not None else 0) | (16 if comment is not None else 0)
    out = b"\x1f\x8b\x08" + bytes([flags]) + struct.pack("<I", mtime) + b"\x00\xff"
    if extra is not None:
        out += struct.pack("<H", len(extra)) + extra
    if name is not None:
        out += name + b"\0"
    if comment is not None:
        out += comment + b"\0"
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    out += c.compress(data) + c.flush()
    return out + struct.pack("<II", zlib.crc32(data), len(data) & 0xFFFFFFFF)


def split_at(data, cuts):
    cuts = [0] + sorted(cuts) + [len(data)]
    return [data[a:b] for a, b in zip(cuts, cuts[1:])]


def zst_frame(data, level=3, checksum=False, content_size=True):
    return zstandard.ZstdCompressor(
        level=level, write_checksum=checksum, write_content_size=content_size).compress(data)


def decompress(raw):
    """Decompress file content whatever the container, for the checked-in files"""
    if raw[:2] == b"\x1f\x8b":
        return gzip.decompress(raw)
    if raw[:4] == b"\x28\xb5\x2f\xfd":
        d = zstandard.ZstdDecompressor()
        with d.stream_reader(io.BytesIO(raw), read_across_frames=True) as r:
            return r.read()
    return raw


# ------------------------------------------------------------- variable length integers
def uvar(value, length=None):
    """Encode unsigned integer; `length` forces an (over-)long encoding"""
    need = uvar_len(value)
    n = need if length is None else length
    if n < need or n > 9:
        raise ValueError
    if n == 9:
        return b"\xff" + value.to_bytes(8, "big")
    if n == 8:
        return b"\xfe" + value.to_bytes(7, "big")
    prefix = (0xFF << (9 - n)) & 0xFF if n > 1 else 0
    raw = value.to_bytes(n, "big")
    return bytes([raw[0] | prefix]) + raw[1:]


def uvar_len(value):
    for n in range(1, 9):
        if value < 1 << (7 * n):
            return n
    if value < 1 << 64:
        return 9
    raise ValueError


def zigzag(value):
    return (value << 1) if value >= 0 else ((-value - 1) << 1) | 1


def svar(value, length=None):
    return uvar(zigzag(value), length)


def uvar_decode(data, pos):
    b = data[pos]
    n = 1
    while n < 9 and b & (0x80 >> (n - 1)):
        n += 1
    if pos + n > len(data):
        raise Truncated
    if n == 9:
        v = int.from_bytes(data[pos + 1:pos + 9], "big")
    elif n == 8:
        v = int.from_bytes(data[pos + 1:pos + 8], "big")
    else:
        v = int.from_bytes(data[pos:pos + n], "big") & ((1 << (7 * n)) - 1)
    return v, n


def unzigzag(u):
    return -(u >> 1) - 1 if u & 1 else u >> 1


def diff_encode(values):
    """differential coding of uint32 values: signed deltas, 32 bit wrap around"""
    out, prev = [], 0
    for v in values:
        v = int(v)
        d = v - prev
        # the smallest signed representation modulo 2**32
        d = (d + 2**31) % 2**32 - 2**31
        out.append(svar(d))
        prev = v
    return b"".join(out)


def diff_decode(data, pos, n):
    out, val = [], 0
    for _ in range(n):
        u, k = uvar_decode(data, pos)
        pos += k
        val = (val + unzigzag(u)) & 0xFFFFFFFF
        out.append(val)
    return out, pos
