"""Python side of the simulated worlds: interprets operations with the real bindings and wrappers of the working tree."""
import gc
import sys
import types

gc.disable()
sys.dont_write_bytecode = True
import numpy as np
import fakeros

W = None              # wrappers and bindings, filled by setup()
procs = []            # per process: handle -> H
graveyard = []        # handles of processes that are gone: their destructors must never run
NAN = 7.0e9           # how a NaN travels


def setup(bindings):
    global W
    core = __import__("PyEigenIPC")
    pkg = types.ModuleType("EigenIPC"); pkg.__path__ = []
    pkg.PyEigenIPC = core
    ext = types.ModuleType("EigenIPC.PyEigenIPCExt"); ext.__path__ = [bindings]
    pkg.PyEigenIPCExt = ext
    sys.modules["EigenIPC"] = pkg
    sys.modules["EigenIPC.PyEigenIPC"] = core
    sys.modules["EigenIPC.PyEigenIPCExt"] = ext
    w = types.SimpleNamespace(core=core)
    from EigenIPC.PyEigenIPCExt.wrappers.shared_data_view import SharedTWrapper
    from EigenIPC.PyEigenIPCExt.wrappers.shared_tensor_dict import SharedTensorDict
    w.View = SharedTWrapper; w.Dict = SharedTensorDict
    fakeros.install(); fakeros.gone = gone
    w.dtypes = [core.dtype.Float, core.dtype.Double, core.dtype.Int, core.dtype.Bool]
    w.np = [np.float32, np.float64, np.int32, np.bool_]
    w.vl = [core.VLevel.V0, core.VLevel.V1, core.VLevel.V2, core.VLevel.V3]
    W = w


class H:
    def __init__(self, o, kind, type=2, layout=0):
        self.o = o; self.kind = kind; self.type = type; self.layout = layout; self.locked = False; self.got = 0; self.keys = None


def begin(n):
    procs.clear(); fakeros.reset()
    procs.extend({} for _ in range(n))


def end():
    for p in procs:
        for h in p.values():
            graveyard.append(h.o)
        p.clear()
    procs.clear(); fakeros.reset()


class R:
    __slots__ = ("code", "val", "data", "strs", "touched", "frame")

    def __init__(self):
        self.code = 1; self.val = 0; self.data = []; self.strs = []; self.touched = 0; self.frame = 0


def call(pid, kind, a, s, data):
    r = R(); fakeros.local.pid = pid
    try:
        run(procs[pid], kind, a, s, data, r)
        what = ""
    except Exception as e:
        r.code = 2
        what = str(e)[:180] or type(e).__name__
    fakeros.settle(pid)
    return (r.code, what, int(r.val), r.data, r.strs, r.touched, r.frame)


def verb(a, i):
    v = a[i] if i < len(a) else 0
    return v != 0, W.vl[max(0, min(3, v - 1))]


def text(b):
    return b.decode("utf-8", "surrogateescape")


def flat(x):
    """values of an array, row major; booleans as the bytes they are"""
    if x.dtype == np.bool_:
        x = x.view(np.uint8)
    return [NAN if v != v else float(v) for v in x.flatten().tolist()]


def arr(h, r, c, mode):
    """a block of a buffer the caller owns, in the handle's layout: whole, part of a larger one, every second element"""
    dt = W.np[h.type]; order = "F" if h.layout else "C"
    if mode == 0:
        big = np.empty((r, c), dt, order); blk = big[:, :]
    elif mode == 1:
        big = np.empty((r + 3, c + 2), dt, order); blk = big[1:1 + r, 1:1 + c]
    elif mode == 2:
        big = np.empty((2 * r + 3, c + 2), dt, order) if h.layout else np.empty((r + 2, 2 * c + 3), dt, order)
        blk = big[1:1 + 2 * r:2, 1:1 + c] if h.layout else big[1:1 + r, 1:1 + 2 * c:2]
    else:
        big = np.empty((2 * r + 3, 2 * c + 2), dt, order); blk = big[1:1 + 2 * r:2, 1:1 + 2 * c:2]
    big.reshape(-1, order="A").view(np.uint8)[:] = 1 if h.type == 3 else 0x5B
    return big, blk


def xfer(h, a, data, r, write):
    mode, row, col, nr, nc = a[1:6]
    big, blk = arr(h, nr, nc, mode)
    if write:
        blk[:, :] = np.array(data, dtype=np.float64).reshape(nr, nc).astype(blk.dtype)
    before = big.copy(order="K")
    r.code = 1 if (h.o.write if write else h.o.read)(blk, row, col) else 0
    inside = np.zeros(big.shape, bool, "F" if h.layout else "C")
    if mode == 0: inside[:, :] = True
    elif mode == 1: inside[1:1 + nr, 1:1 + nc] = True
    elif mode == 2:
        if h.layout: inside[1:1 + 2 * nr:2, 1:1 + nc] = True
        else: inside[1:1 + nr, 1:1 + 2 * nc:2] = True
    else: inside[1:1 + 2 * nr:2, 1:1 + 2 * nc:2] = True
    if big.size:
        n = big.dtype.itemsize
        d = (big.reshape(-1, order="A").view(np.uint8) != before.reshape(-1, order="A").view(np.uint8)).reshape(-1, n).any(axis=1)
        ins = inside.reshape(-1, order="A")
        if (d & ins).any():
            if write: r.frame = 1
            else: r.touched = 1
        if (d & ~ins).any(): r.frame = 1
    if not write: r.data = flat(blk)


def odd(h, a, r):
    """[h, kind, row, col, r, c, read]: arrays no transfer may accept"""
    kind, row, col, nr, nc, rd = a[1:7]
    nr = max(2, nr); nc = max(2, nc); dt = np.dtype(W.np[h.type]); order = "F" if h.layout else "C"
    if kind == 0: big = np.zeros((nr, nc), dt, order); x = big[::-1, :]
    elif kind == 1: big = np.zeros((nr, nc), dt, order); x = big[:, ::-1]
    elif kind == 2: big = np.zeros((nr, nc), dt, "C" if h.layout else "F"); x = big
    elif kind == 3: big = np.zeros((nr, nc), [np.int64, np.float16, np.uint32, np.int64, np.uint8, np.complex64, np.float64, np.int16][(row + col + nr + nc) % 8] if h.type != 1 else [np.float32, np.int64][nr % 2], order); x = big
    elif kind == 4: big = np.zeros(nr * nc, dt); x = big
    elif kind == 5: big = np.zeros((1, nr, nc), dt, order); x = big
    elif kind == 6: big = np.zeros((nr, nc), np.dtype([("a", np.uint8), ("b", dt)]) if dt.itemsize > 1 else dt, order if dt.itemsize > 1 else ("C" if h.layout else "F")); x = big["b"] if dt.itemsize > 1 else big
    elif kind == 7: big = np.zeros((nr, nc), dt.newbyteorder() if dt.itemsize > 1 else np.uint8, order); x = big
    elif kind == 8: big = np.zeros((), dt); x = big
    else: big = np.zeros((nr, nc), dt, order); x = big.tolist()
    big.view(np.uint8).reshape(-1, order="A")[:] = 0x5B if dt.itemsize > 1 else 1 if big.ndim else big
    before = big.tobytes("A")
    try: r.code = 1 if (h.o.read if rd else h.o.write)(x, row, col) else 0
    finally:
        if big.tobytes("A") != before: r.touched = 1


def run(hs, k, a, s, data, r):
    core = W.core
    A = lambda i, d=0: a[i] if i < len(a) else d
    name = text(s[0]) if s else ""
    ns = text(s[1]) if len(s) > 1 else ""
    if k in ("resrv", "recli", "ressrv", "rescli", "reprod", "recons"):
        if a[0] in hs: return
        k = k[2:]
    # ---- creation, through the bindings alone
    if k == "srv":
        v, vl = verb(a, 7)
        hs[a[0]] = H(core.ServerFactory(n_rows=a[3], n_cols=a[4], basename=name, namespace=ns, verbose=v, vlevel=vl, force_reconnection=bool(a[5]), safe=bool(a[6]), dtype=W.dtypes[a[1]], layout=core.ColMajor if a[2] else core.RowMajor), "s", a[1], a[2]); return
    if k == "cli":
        v, vl = verb(a, 4)
        hs[a[0]] = H(core.ClientFactory(basename=name, namespace=ns, verbose=v, vlevel=vl, safe=bool(a[3]), dtype=W.dtypes[a[1]], layout=core.ColMajor if a[2] else core.RowMajor), "c", a[1], a[2]); return
    if k == "ssrv":
        v, vl = verb(a, 4)
        hs[a[0]] = H(core.StringTensorServer(length=a[1], basename=name, name_space=ns, verbose=v, vlevel=vl, force_reconnection=bool(a[2]), safe=bool(a[3])), "S"); return
    if k == "scli":
        v, vl = verb(a, 2)
        hs[a[0]] = H(core.StringTensorClient(basename=name, name_space=ns, verbose=v, vlevel=vl, safe=bool(a[1])), "C"); return
    if k == "prod":
        v, vl = verb(a, 2)
        hs[a[0]] = H(core.Producer(name, ns, v, vl, bool(a[1])), "P"); return
    if k == "cons":
        v, vl = verb(a, 1)
        hs[a[0]] = H(core.Consumer(name, ns, v, vl), "Q"); return
    # ---- creation, through the wrappers
    if k == "view":      # [h, server, type, rows, cols, force, safe, verb, fill]; fill 1: not a number (floats) or -1, 2: 5
        v, vl = verb(a, 7)
        fill = {0: None, 1: (np.nan if a[2] < 2 else -1), 2: 5}[A(8)]
        if a[2] == 3 and fill is not None: fill = True
        hs[a[0]] = H(W.View(namespace=ns, basename=name, is_server=bool(a[1]), n_rows=a[3] if a[1] else None, n_cols=a[4] if a[1] else None, verbose=v, vlevel=vl, dtype=W.dtypes[a[2]], fill_value=fill, safe=bool(a[6]), force_reconnection=bool(a[5])), "V", a[2], 0); return
    if k == "dict":      # [h, server, nodes, force, safe, verb, dims...] s: namespace, keys
        v, vl = verb(a, 5)
        if a[1]: o = W.Dict(names=[text(x) for x in s[1:]], dimensions=list(a[6:]), n_nodes=a[2], namespace=name, is_server=True, verbose=v, vlevel=vl, safe=bool(a[4]), force_reconnection=bool(a[3]))
        else: o = W.Dict(namespace=name, is_server=False, verbose=v, vlevel=vl, safe=bool(a[4]))
        hs[a[0]] = H(o, "D", 0, 0); return
    # ---- the ROS bridge
    if k == "tor":       # [h, type, layout, safe, verb, ros, queue, string]
        v, vl = verb(a, 4)
        if A(7): c = core.StringTensorClient(basename=name, name_space=ns, verbose=v, vlevel=vl, safe=bool(a[3]))
        else: c = core.ClientFactory(basename=name, namespace=ns, verbose=v, vlevel=vl, safe=bool(a[3]), dtype=W.dtypes[a[1]], layout=core.ColMajor if a[2] else core.RowMajor)
        from EigenIPC.PyEigenIPCExt.extensions.ros_bridge.to_ros import ToRos
        hs[a[0]] = H(ToRos(c, queue_size=a[6], ros_backend="ros%d" % a[5], node=node(a[5])), "T", a[1], a[2]); return
    if k == "fror":      # [h, ros, queue, force, verb]
        v, vl = verb(a, 4)
        from EigenIPC.PyEigenIPCExt.extensions.ros_bridge.from_ros import FromRos
        hs[a[0]] = H(FromRos(name, ns, queue_size=a[2], ros_backend="ros%d" % a[1], vlevel=vl, verbose=v, force_reconnection=bool(a[3]), node=node(a[1])), "F"); return
    if k == "rlink": fakeros.link(a[0]); return
    if k == "rspin": spin(hs, a, r); return
    h = hs.get(A(0))
    if h is None:
        r.code = -1; return
    o = h.o
    if k == "del":
        del hs[a[0]]; h.o = None; del o; return
    if h.kind in "sc":
        if k == "write" or k == "read": xfer(h, a, data, r, k == "write"); return
        if k == "odd": odd(h, a, r); return
        if k == "scalar":
            r.val = W.dtypes.index(o.getScalarType()); return
    if h.kind in "SC":
        if k == "swrite": r.code = 1 if (o.write_vec([text(x) for x in s], a[1]) if A(2) else o.write_str(name, a[1])) else 0; return
        if k == "sread":
            n = max(0, A(2))
            if A(3):
                l = ["<prev>"] * n; ok = o.read_vec(l, a[1]); r.strs = [x.encode("utf-8", "surrogateescape") for x in l]
                if len(l) != n: r.strs.append(b"<size changed>")
                if ok and n:   # the raw buffer holds the words of what was just read
                    b = o.get_raw_buffer(); w = [b[:, a[1] + j].tobytes().rstrip(b"\0") for j in range(n)] if b.shape[1] >= a[1] + n else None
                    if w != r.strs: r.strs.append(b"<raw buffer differs>")
            else:
                t, ok = o.read_str(a[1]); r.strs = [(t if ok else "<prev>").encode("utf-8", "surrogateescape")] + [b"<prev>"] * (n - 1)
            r.code = 1 if ok else 0; return
        if k == "len": r.val = o.length(); return
        if k == "nclients": r.val = o.get_shared_mem().getNClients(); return
        if k == "sraw":
            b = o.get_raw_buffer(); r.val = b.shape[1]; r.data = flat(b); return
    if h.kind in "TF" and k == "update":   # [h, lines, pick]: the callback thread comes in after so many lines
        def others():
            out = []; er = []; fakeros.deliver(0, A(2), out, er); r.strs = [x.encode() for x in out]
        r.code = 1 if fakeros.interrupted(o.update, A(1), others, BRIDGE) else 0; return
    if h.kind == "F" and k == "run":
        def others():
            out = []; er = []; fakeros.deliver(0, A(2), out, er); r.strs = [x.encode() for x in out]
        if A(3): ok = within(o.run, A(1), A(2), r)
        else: ok = fakeros.interrupted(o.run, A(1), others, BRIDGE)
        r.code = 1 if ok else 0
        if ok: r.val = o._subscriber.n_rows() * 1000 + o._subscriber.n_cols()
        return
    if h.kind == "V": view(h, k, a, data, r); return
    if h.kind == "D": dictionary(h, k, a, data, r); return
    if k == "run":
        if h.kind in "c": o.attach()
        else: o.run()
    elif k == "attach":
        if h.kind in "CQ": o.run()
        else: o.attach()
    elif k == "stop": o.stop()
    elif k == "close": o.close()
    elif k == "detach": o.detach()
    elif k == "nclients": r.val = o.getNClients()
    elif k == "nrows": r.val = o.getNRows()
    elif k == "ncols": r.val = o.getNCols()
    elif k == "isrun": r.val = 1 if o.isRunning() else 0
    elif k == "lock":
        if A(1) and h.locked: r.code = 0; return
        o.dataSemAcquire(); h.locked = True
    elif k == "unlock":
        if A(1) and not h.locked: r.code = 0; return
        h.locked = False; o.dataSemRelease()
    elif k == "trigger": o.trigger()
    elif k == "wack": r.code = 1 if o.wait_ack_from(a[1], a[2]) else 0
    elif k == "wait": r.code = 1 if o.wait(a[1]) else 0
    elif k == "ack": r.code = 1 if o.ack() else 0
    elif k == "waitack":
        r.code = 0
        if o.wait(a[2]):
            r.val = 1; done = o.ack(); r.code = 1 if done and a[1] else 0
    elif k == "cwait":
        if h.got >= a[2]:
            r.code = -1; r.val = 1; return
        r.code = 0
        if o.wait(a[1]):
            r.val = 1; h.got += 1
            if A(3) == 0: r.code = 1
            else: done = o.ack(); r.code = 1 if done and A(3) == 1 else 0
    else: raise SystemExit("unknown operation " + k)


BRIDGE = ("abstractions.py", "from_ros.py", "to_ros.py")


def node(ros):
    return sys.modules["rclpy"].create_node() if ros == 2 else None


def spin(hs, a, r):
    """[count, pick, h, lines]: callbacks of waiting messages; the bridge h is updated in the middle of them, after so many lines"""
    out = []; er = []
    h = hs.get(a[2]) if len(a) > 3 and a[3] > 0 else None

    bad = []

    def again(ns): raise fakeros.Preempted()

    def other():
        fakeros.local.asleep = again
        try: r.val = 1 if h.o.update() else 0
        except fakeros.Preempted: r.val = 2      # it waits for the callback
        except Exception as e: bad.append(e)
        finally: fakeros.local.asleep = None
    fakeros.interrupted(lambda: fakeros.deliver(a[0], a[1], out, er), a[3] if h else 0, other, BRIDGE)
    if r.val == 2: r.val = 1 if h.o.update() else 0
    if bad: raise bad[0]
    r.strs = [x.encode() for x in out]
    r.data = [float(len(er))]


def within(f, at, pick, r):
    """f runs in the middle of the callbacks of all waiting messages, after so many lines"""
    out = []; er = []; res = []

    def other():
        try: res.append(f())
        except BaseException as e: res.append(e)
    fakeros.interrupted(lambda: fakeros.deliver(0, pick, out, er), at, other, BRIDGE)
    if not res: other()
    r.strs = [x.encode() for x in out]
    if isinstance(res[0], BaseException): raise res[0]
    return res[0]


def fill_of(data, nr, nc, t):
    return np.array([np.nan if v == NAN else v for v in data], dtype=np.float64).reshape(nr, nc).astype(W.np[t])


def view(h, k, a, data, r):
    o = h.o
    A = lambda i, d=0: a[i] if i < len(a) else d
    if k == "run":
        o.run(); r.data = flat(o.get_numpy_mirror()); r.val = o.n_rows * 1000 + o.n_cols; return
    if k == "close": o.close(); return
    if k == "nclients": r.val = o.get_n_clients(); return
    if k == "isrun": r.val = 1 if o.is_running() else 0; return
    if k == "lock": o.data_sem_acquire(); return
    if k == "unlock": o.data_sem_release(); return
    if k == "stop": o.get_shared_mem().stop(); return
    m = o.get_numpy_mirror()
    if m is None:
        r.code = -1; return
    if k == "look": r.data = flat(m); return
    if k == "set":       # [h, row, col, r, c, tag]: the caller changes its own view
        m[a[1]:a[1] + a[3], a[2]:a[2] + a[4]] = fill_of(data, a[3], a[4], h.type); return
    before = m.copy()
    def outside(row, col, nr, nc):
        after = o.get_numpy_mirror().copy(); x = before.copy(); after[row:row + nr, col:col + nc] = x[row:row + nr, col:col + nc] = 0
        if after.tobytes() != x.tobytes(): r.frame = 1
    if k == "vwrite":    # [h, row, col, r, c, tag, how]: how 0 array, 1 scalar, 2 array until it succeeds, 3 scalar until it succeeds
        how = A(6)
        if how & 1:
            v = data[0]
            d = (bool(v) if h.type == 3 else int(v) if h.type == 2 else float(v))
        else: d = fill_of(data, a[3], a[4], h.type)
        if how & 2: o.write_retry(d, a[1], a[2]); ok = True
        else: ok = o.write(d, a[1], a[2])
        r.code = 1 if ok else 0; outside(a[1], a[2], a[3], a[4])
    elif k == "vread":   # [h, row, col, r, c, how]
        how = A(5)
        if how & 1:
            res = (o.read_retry if how & 2 else o.read)(a[1], a[2])
            if res is None: r.code = 0; return
            v, ok = res; r.data = [NAN if v != v else float(v)]
        else:
            d = np.full((a[3], a[4]), 1 if h.type == 3 else -77, W.np[h.type]); d0 = d.copy()
            res = (o.read_retry if how & 2 else o.read)(a[1], a[2], d)
            if res is None: r.code = 0; return
            _, ok = res; r.data = flat(d)
            if not ok and d.tobytes() != d0.tobytes(): r.touched = 1
        r.code = 1 if ok else 0; outside(a[1], a[2], a[3], a[4])
        if not ok and before.tobytes() != m.tobytes(): r.touched = 1
    elif k == "synch":   # [h, row, col, r, c, read, how]: how 0 once, 1 until it succeeds, 2 synch_all, 3 synch_all until it succeeds
        row, col, nr, nc, rd, how = a[1:7]; rd = bool(rd)
        if not rd: r.data = flat(m[row:row + nr, col:col + nc])
        if how == 0: ok = o.synch(row, col, nr, nc, read=rd)
        elif how == 1: o.synch_retry(row, col, nr, nc, read=rd); ok = True
        else: ok = o.synch_all(read=rd, retry=how == 3)
        r.code = 1 if ok else 0
        after = o.get_numpy_mirror()
        if rd: r.data = flat(after[row:row + nr, col:col + nc]); outside(row, col, nr, nc)
        if (not ok or not rd) and before.tobytes() != after.tobytes(): r.touched = 1
    elif k == "zero": o.to_zero(); r.code = 1; r.data = flat(o.get_numpy_mirror())
    else: raise SystemExit("unknown operation " + k)


def cells(tag, nr, nc):
    v = np.array([[tag * 64 + ((i * nc + j) & 63) for j in range(nc)] for i in range(nr)], dtype=np.float32).reshape(nr, nc)
    return -v if tag % 3 == 0 else v


def dictionary(h, k, a, data, r):
    o = h.o
    A = lambda i, d=0: a[i] if i < len(a) else d
    if k == "run":
        o.run(); r.strs = [x.encode("utf-8", "surrogateescape") for x in o.names]; r.data = [float(x) for x in o.dimensions]; r.val = o.n_dims * 1000 + o.n_nodes; return
    if k == "close": o.close(); return
    if k == "lock": o.data.data_sem_acquire(); return
    if k == "unlock": o.data.data_sem_release(); return
    if o.names is None or o.data.get_numpy_mirror() is None:
        r.code = -1; return
    if k == "dwrite":    # [h, key, tag, retry]
        if a[1] >= len(o.names): r.code = -1; return
        d = cells(a[2], o.dimensions[a[1]], o.n_nodes)
        if d.shape[0] == 1 and a[2] % 2: d = d.reshape(-1)
        r.code = 1 if o.write(d, o.names[a[1]], retry=bool(A(3))) else 0
    elif k == "dsynch":  # [h, retry]
        b = o.data.get_numpy_mirror().copy(); r.code = 1 if o.synch(retry=bool(a[1])) else 0
        if r.code == 0 and b.tobytes() != o.data.get_numpy_mirror().tobytes(): r.touched = 1
        for n in o.names: r.data += flat(o.get(n))
    elif k == "dget":
        if a[1] >= len(o.names): r.code = -1; return
        b = o.get(o.names[a[1]]); r.data = flat(b)
        for x, y in getattr(h, "given", ()):   # what was handed out before belongs to the caller
            if x.tobytes() != y: r.touched = 2
        if not hasattr(h, "given"): h.given = []
        h.given.append((b, b.tobytes()))
        if len(h.given) > 3: b[...] = 77; h.given.pop()   # and may be changed by it
    else: raise SystemExit("unknown operation " + k)
