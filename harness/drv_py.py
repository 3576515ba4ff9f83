"""Driver of the Python implementation: scripts in, traces out (see spec/PyTrace.tla).
drv_py.py <repo> <scripts> <traces>

  w <id> <fmt> <value>..     encode: integers in decimal, s:<hex utf8>, b:<hex>, f:<hex of the IEEE bytes>
  r <fmt> <hex>              decode the payload of a message (- is the last one written)
  d <hex>                    textual dump
  pn <p>                     new stream decoder
  pf <p> <hex> [off]         feed bytes, from offset off, until all are used
"""
import json, logging, os, signal, struct, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(sys.argv[1], "python"))
import pomp                                             # noqa: E402
import pomp.protocol as protocol                        # noqa: E402
from pomp.message import Message                        # noqa: E402
from pomp.encoder import EncodeException                # noqa: E402
from pomp.decoder import DecodeException                # noqa: E402
logging.disable(logging.CRITICAL)
sys.set_int_max_str_digits(0) if hasattr(sys, "set_int_max_str_digits") else None


class Hang(BaseException):
    pass


def onalarm(*_):
    raise Hang()


def val(fl, c, v):
    """bytes of a decoded value"""
    if c in "di" or c == "u":
        n = {"": 4, "l": 4, "ll": 8, "h": 2, "hh": 1}[fl]
        if not isinstance(v, int) or isinstance(v, bool):
            return [-2]
        lo = 0 if c == "u" else -(1 << (8 * n - 1))
        hi = (1 << (8 * n - (0 if c == "u" else 1))) - 1
        if v < lo or v > hi:
            return [-3]
        return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))
    if c == "s":
        return list(v.encode("utf-8", "surrogatepass")) if isinstance(v, str) else [-2]
    if c == "p":
        return list(v) if isinstance(v, (bytes, bytearray)) else [-2]
    if not isinstance(v, float):
        return [-2]
    if v != v:
        return [-1]
    return list(struct.pack("<d" if fl == "l" else "<f", v))


def specs(f):
    out = []
    for x in filter(None, f.split("%")[1:]):
        out.append((x[:-1], x[-1]))
    return out


def message(b):
    """the message of these bytes, as received"""
    m = Message()
    m.init(0)
    m.buf.write(b)
    m.msgid = struct.unpack("<I", b[4:8])[0]
    m.setFinished()
    return m


def code(e):
    return -1 if isinstance(e, (DecodeException, EncodeException)) else -2


def run(lines):
    ev, P, last = [], {}, None
    for l in lines:
        t = l.split()
        if t[0] == "w":
            args, a = [], []
            for x in t[3:]:
                if x[:2] == "s:":
                    b = bytes.fromhex(x[2:])
                    args.append(b.decode("utf-8"))
                    a.append(list(b))
                elif x[:2] == "b:":
                    b = bytes.fromhex(x[2:])
                    args.append(b)
                    a.append(list(b))
                elif x[:2] == "f:":
                    b = bytes.fromhex(x[2:])
                    args.append(struct.unpack("<f" if len(b) == 4 else "<d", b)[0])
                    a.append(list(b))
                else:
                    args.append(int(x))
                    a.append(list((int(x) & (2 ** 64 - 1)).to_bytes(8, "little")))
            f = "" if t[2] == "-" else t[2]
            e = {"op": "pw", "f": [ord(c) for c in f], "id": list(struct.pack("<I", int(t[1]))), "a": a}
            m = Message()
            try:
                m.write(int(t[1]), f, *args)
                e["r"], e["x"] = 0, list(m.buf.getData())
                last = m
            except Exception as x:
                e["r"], e["x"] = code(x), []
            ev.append(e)
        elif t[0] in ("r", "d"):
            h = t[-1]
            if h == "-" and last is None:
                continue
            b = last.buf.getData() if h == "-" else bytes.fromhex(h)
            m = last if h == "-" else message(b)
            f = "" if t[0] == "d" or t[1] == "-" else t[1]
            e = {"op": "p" + t[0], "x": list(b)}
            try:
                if t[0] == "r":
                    e["f"] = [ord(c) for c in f]
                    v = m.read(f)
                    s = specs(f)
                    e["r"] = 0
                    e["v"] = [val(q[0], q[1], y) for q, y in zip(s, v)] if isinstance(v, tuple) and len(s) == len(v) else [[-4]]
                else:
                    e["txt"] = list(m.dump().encode("utf-8", "surrogatepass"))
                    e["r"] = 0
            except Exception as x:
                e["r"] = code(x)
                e["v"] = []
                e["txt"] = []
            ev.append(e)
        elif t[0] == "pn":
            P[t[1]] = protocol.Protocol()
            ev.append({"op": "pn", "p": int(t[1])})
        elif t[0] == "pf":
            b = bytes.fromhex(t[2])
            o = int(t[3]) if len(t) > 3 else 0
            while o < len(b):
                e = {"op": "pf", "p": int(t[1]), "b": list(b), "o": o}
                try:
                    o, m = P[t[1]].decode(b, o)
                    e["u"] = o
                    e["got"] = 0 if m is None else 1
                    e["x"] = [] if m is None else list(m.buf.getData())
                    e["id"] = [] if m is None else list(struct.pack("<I", m.msgid))
                except Exception as x:
                    e["u"], e["got"], e["x"], e["id"] = -1, 2, [ord(c) for c in repr(x)[:80]], []
                    o = len(b)
                ev.append(e)
                if len(ev) > 5000:
                    raise Hang()
        elif t[0] == "end":
            ev.append({"op": "fin"})
    return ev


signal.signal(signal.SIGALRM, onalarm)
scripts = []
for l in open(sys.argv[2]):
    l = l.rstrip("\n")
    if l.startswith("== "):
        scripts.append((l[3:], []))
    elif l:
        scripts[-1][1].append(l)
hangs = 0
with open(sys.argv[3], "w") as out:
    for i, ls in scripts:
        signal.alarm(20)
        try:
            ev = run(ls)
        except Hang:
            ev = [{"op": "hang"}]
            hangs += 1
        signal.alarm(0)
        out.write(json.dumps({"id": i, "ev": ev}, separators=(",", ":")) + "\n")
        if hangs >= 3:
            break
