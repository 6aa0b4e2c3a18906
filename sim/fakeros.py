"""A stand-in for ROS 1 (rospy), ROS 2 (rclpy), std_msgs and perf_sleep: topics with latching, bounded queues, delay, lost links.

Every simulated process has one node. A message is serialised when it is published (ROS 1 keeps a reference to the latched one and
serialises it again for a late subscriber, like rospy). It reaches a subscriber's queue, which keeps the newest `queue_size`, and its
callback runs when the plan says so (deliver), never on its own; an exception in a callback is swallowed, as both libraries do."""
import sys
import threading
import types

import numpy as np

local = threading.local()      # .pid: the simulated process this thread state belongs to
gone = None                    # gone(pid): set by the host
topics = {}
down = set()                   # processes whose link is down


class Topic:
    def __init__(self): self.pubs = []; self.subs = []


def topic(name): return topics.setdefault(name, Topic())


def reset():
    topics.clear(); down.clear()


def message(name, cast, array):
    class M:
        def __init__(self, data=None):
            self.data = data if data is not None else ([] if array else 0)

        def wire(self):
            if array: return M(tuple(np.asarray(self.data).reshape(-1).astype(cast).tolist()))
            return M(cast(self.data).item())
    M.__name__ = name
    return M


class Pub:
    def __init__(self, name, cls, depth, latch, by_reference):
        self.name = name; self.cls = cls; self.depth = depth; self.latch = latch; self.ref = by_reference; self.kept = []; self.pid = local.pid; self.on = True; self.n = 0
        topic(name).pubs.append(self)

    def publish(self, msg):
        if not self.on: raise RuntimeError("publish() to a closed topic")
        if not isinstance(msg, self.cls): raise TypeError("wrong message type")
        w = msg.wire()
        self.n += 1; self.now = w
        if self.latch: self.kept = (self.kept + [(self.n, msg if self.ref else w)])[-self.depth:]
        for s in topic(self.name).subs:
            if s.cls is self.cls and s.up(): s.put(w); s.seen[self] = self.n

    def resend(self, s):
        if self.on and self.latch and self.cls is s.cls and not gone(self.pid):
            for n, m in self.kept:
                if self.ref: s.put(self.now)                      # ROS 1 sends the latched message again, whatever arrived before
                elif s.seen.get(self, 0) < n: s.put(m); s.seen[self] = n

    def stop(self):
        self.on = False; t = topic(self.name).pubs
        if self in t: t.remove(self)


class Sub:
    def __init__(self, name, cls, callback, depth):
        self.name = name; self.cls = cls; self.callback = callback; self.depth = max(1, depth); self.q = []; self.pid = local.pid; self.on = True; self.seen = {}
        topic(name).subs.append(self)
        self.linked()

    def up(self): return self.on and self.pid not in down and not gone(self.pid)

    def linked(self):
        if self.up():
            for p in list(topic(self.name).pubs): p.resend(self)

    def put(self, m):
        self.q = (self.q + [m])[-self.depth:]

    def stop(self):
        self.on = False; t = topic(self.name).subs
        if self in t: t.remove(self)


def settle(pid):
    """after an operation of a process: what its latched messages look like now (nobody else sees them in the middle of one)"""
    for t in topics.values():
        for p in t.pubs:
            if p.ref and p.pid == pid and p.kept: p.now = p.kept[-1][1].wire()


def link(up):
    """the link of this process' node goes down (messages are lost) or comes back (latched ones arrive again)"""
    pid = local.pid
    if not up: down.add(pid); return
    if pid in down:
        down.discard(pid)
        for n in sorted(topics):
            for s in topics[n].subs:
                if s.pid == pid: s.linked()


def deliver(n, pick, out, errors):
    """run the callbacks of up to n waiting messages (0: all), topics in an order given by pick"""
    pid = local.pid; left = n if n > 0 else 1 << 30
    while left > 0:
        w = [s for k in sorted(topics) for s in topics[k].subs if s.pid == pid and s.q]
        if not w: break
        pick = (pick * 6364136223846793005 + 1442695040888963407) & (2 ** 64 - 1)
        s = w[(pick >> 33) % len(w)]; m = s.q.pop(0); left -= 1
        try: s.callback(m); out.append(s.name)
        except Exception as e: errors.append(s.name + ": " + str(e))


# ---- the modules the bridge imports
def install():
    std = types.ModuleType("std_msgs"); msg = types.ModuleType("std_msgs.msg"); std.msg = msg
    for n, c, a in (("Bool", np.bool_, 0), ("Int32", np.int32, 0), ("Float32", np.float32, 0), ("Float64", np.float64, 0),
                    ("Int32MultiArray", np.int32, 1), ("Float32MultiArray", np.float32, 1), ("Float64MultiArray", np.float64, 1)):
        setattr(msg, n, message(n, c, a))
    ps = types.ModuleType("perf_sleep"); pps = types.ModuleType("perf_sleep.pyperfsleep"); ps.pyperfsleep = pps

    class PerfSleep:
        @staticmethod
        def thread_sleep(ns):
            hook = getattr(local, "asleep", None)
            if hook: hook(ns)
    pps.PerfSleep = PerfSleep
    rospy = types.ModuleType("rospy")

    class Publisher:
        def __init__(self, name, data_class, subscriber_listener=None, tcp_nodelay=False, latch=False, headers=None, queue_size=None):
            self.p = Pub(name, data_class, 1, latch, True)

        def publish(self, *a): self.p.publish(a[0])
        def unregister(self): self.p.stop()

    class Subscriber:
        def __init__(self, name, data_class, callback=None, callback_args=None, queue_size=None, buff_size=65536, tcp_nodelay=False):
            self.s = Sub(name, data_class, callback if callback_args is None else (lambda m: callback(m, callback_args)), queue_size or 1 << 20)

        def unregister(self): self.s.stop()
    rospy.Publisher = Publisher; rospy.Subscriber = Subscriber; rospy.init_node = lambda *a, **k: None; rospy.is_shutdown = lambda: False
    rclpy = types.ModuleType("rclpy"); node = types.ModuleType("rclpy.node"); qos = types.ModuleType("rclpy.qos"); rclpy.node = node; rclpy.qos = qos

    class QoSProfile:
        def __init__(self, **k): self.__dict__.update(depth=10, durability="volatile", history="keep_last"); self.__dict__.update(k)

    def policy(*names): return type("Policy", (), {n: n.lower() for n in names})
    qos.QoSProfile = QoSProfile
    qos.ReliabilityPolicy = policy("RELIABLE", "BEST_EFFORT"); qos.DurabilityPolicy = policy("TRANSIENT_LOCAL", "VOLATILE")
    qos.HistoryPolicy = policy("KEEP_LAST", "KEEP_ALL"); qos.LivelinessPolicy = policy("AUTOMATIC", "MANUAL_BY_TOPIC")

    class Gone:
        def __init__(self, x): self.x = x
        def publish(self, m): self.x.publish(m)
        def destroy(self): self.x.stop()

    class Node:
        def _depth(self, q): return q if isinstance(q, int) else (1 << 20 if q.history == "keep_all" else max(1, q.depth))
        def _latch(self, q): return not isinstance(q, int) and q.durability == "transient_local"

        def create_publisher(self, msg_type, topic, qos_profile, **k):
            return Gone(Pub(topic, msg_type, self._depth(qos_profile), self._latch(qos_profile), False))

        def create_subscription(self, msg_type, topic, callback, qos_profile, **k):
            return Gone(Sub(topic, msg_type, callback, self._depth(qos_profile)))
    node.Node = Node; rclpy.create_node = lambda *a, **k: Node(); rclpy.init = lambda *a, **k: None; rclpy.ok = lambda: True
    for m in (std, msg, ps, pps, rospy, rclpy, node, qos): sys.modules[m.__name__] = m


# ---- two threads of one process: the callback thread and the one that calls run() and update()
class Preempted(BaseException):
    pass


def interrupted(f, at, g, files):
    """run f; when it has executed `at` lines of the given files, g runs in the middle of it (the other thread)"""
    if at <= 0: return f()
    n = [at]

    def line(frame, event, arg):
        if event == "line" and n[0] > 0:
            n[0] -= 1
            if n[0] == 0:
                sys.settrace(None)
                try: g()
                finally: sys.settrace(call)
        return line

    def call(frame, event, arg):
        return line if frame.f_code.co_filename.endswith(files) else None
    sys.settrace(call)
    try: return f()
    finally: sys.settrace(None)
