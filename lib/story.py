"""Reference model of the OpenSCENARIO storyboard: element states, triggers, priorities and execution counts."""
from s02 import Cond, Trigger, EPS

INIT, STANDBY, RUNNING, COMPLETE = 0, 1, 2, 3
STATES = {"standbyState": STANDBY, "runningState": RUNNING, "completeState": COMPLETE}
TRANS = {"startTransition": "start", "endTransition": "end", "stopTransition": "stop", "skipTransition": "skip"}
DOM = dict(speed=1, lane=2, traj=3, teleport=3)  # domains (1 longitudinal, 2 lateral) of private actions
TYPES = dict(storyboard=1, story=2, act=3, maneuverGroup=4, maneuver=5, event=6, action=7)


class StateCond(Cond):
    """true when the element is in, or has passed, the state since the last check"""

    def __init__(self, c):
        self.queue, self.latest = [], None
        super().__init__(c)

    def rearm(self):
        super().rearm()
        self.queue = []

    def notify(self, state, trans):
        self.queue.append((state, trans))
        self.latest = state

    def check(self, t, values):
        q, self.queue = self.queue, []
        s = self.c["state"]
        if s in STATES:
            raw = any(x[0] == STATES[s] for x in q) if q else self.latest == STATES[s]
        else:
            raw = any(x[1] == TRANS[s] for x in q)
        self.raw = raw
        return super().check(t, {"#" + self.c["ref"]: lambda _s: raw})


class Trig(Trigger):
    def __init__(self, groups, default):
        self.default = default
        self.groups = [[StateCond(c) if c["k"] == "state" else Cond(c) for c in g] for g in groups]

    def check(self, t, values):
        if not self.groups:
            return self.default
        return super().check(t, values)


class El:
    def __init__(self, board, typ, name, parent, start=None, stop=None, mx=1):
        self.board, self.typ, self.name, self.parent = board, typ, name, parent
        self.state, self.n, self.max, self.children, self.watch = INIT, 0, mx, [], []
        self.start_trig = None if start is None else Trig(start, True)
        self.stop_trig = None if stop is None else Trig(stop, False)
        if parent is None or typ == "story":
            self.path = "" if parent is None else name
        else:
            self.path = parent.path + "::" + name
        if parent is not None:
            parent.children.append(self)
        board.els.append(self)

    def set(self, state, trans):
        if state != self.state:
            if self.path or self.typ == "storyboard":
                self.board.log.append((self.path, TYPES[self.typ], state))
            for c in self.watch:
                c.notify(state, trans)
            self.state = state

    def start(self, t):
        if self.state == INIT and self.start_trig is not None:
            self.set(STANDBY, "standby")
        else:
            self.set(RUNNING, "start")
            self.n += 1
        if self.typ != "event" and self.state == RUNNING:
            for c in self.children:
                c.start(t)

    def step(self, t, dt):
        if self.state == RUNNING:
            for c in self.children:
                c.step(t, dt)

    def eval(self, t):
        if self.state == RUNNING and self.stop_trig is not None and self.stop_trig.check(t, self.board.values):
            self.stop()
        if self.state == STANDBY and (self.start_trig is None or self.start_trig.check(t, self.board.values)):
            self.start(t)
        if self.state == RUNNING:
            for c in self.children:
                c.eval(t)

    def children_done(self):
        if self.parent is not None and self.state != COMPLETE and all(c.state == COMPLETE for c in self.children):
            self.end()

    def stop(self):
        for c in self.children:
            c.stop()
        if self.state in (STANDBY, RUNNING):
            self.set(COMPLETE, "stop")
            if self.parent is not None:
                self.parent.children_done()

    def end(self):
        if self.state == COMPLETE:
            return
        for c in self.children:
            if c.state == RUNNING:
                c.end()
        if self.state == COMPLETE:
            return
        if self.state in (RUNNING, STANDBY):
            if self.typ in ("maneuverGroup", "event") and not (self.max != -1 and self.n >= self.max):
                self.rearm()
                self.set(STANDBY, "end")
                for c in self.children:
                    c.reset()
            else:
                self.set(COMPLETE, "end")
        if self.parent is not None:
            self.parent.children_done()

    def rearm(self):
        for tr in (self.start_trig, self.stop_trig):
            if tr is not None:
                tr.rearm()

    def reset(self):
        for c in self.children:
            c.reset()
        self.state = INIT
        self.rearm()


class Event(El):
    def start(self, t):
        prio = self.prio
        if prio in ("overwrite", "override"):
            if self.state == RUNNING:
                return
            for e in self.parent.children:
                if e is not self and e.state == RUNNING:
                    e.end()
        elif prio == "skip":
            if any(e.state == RUNNING for e in self.parent.children):
                self.board.skipped += 1
                return
        elif self.state == RUNNING:
            return
        super().start(t)
        if self.state != RUNNING:
            return
        if not self.children:
            self.end()
            return
        for a in self.children:
            if a.obj is not None:
                for b in self.board.els:
                    if b.typ == "action" and b is not a and b.obj == a.obj and b.state == RUNNING and b.dom & a.dom:
                        self.board.conflicts += 1
                        b.end()
            a.start(t)

    def step(self, t, dt):
        for a in self.children:
            if a.state == RUNNING:
                a.step(t, dt)


class Action(El):
    def start(self, t):
        self.left = self.a.get("T")
        if self.a["k"] == "setvar":
            self.board.values[self.a["ref"]][1] = self.a["value"]
        super().start(t)

    def step(self, t, dt):
        if self.a["k"] == "setvar":
            self.stop()
        elif self.a["k"] == "teleport":
            self.end()
        elif self.left is not None:
            self.left -= dt
            if self.left < EPS:
                self.end()


class Board:
    def __init__(self, sc, values):
        self.els, self.log, self.values, self.skipped, self.conflicts = [], [], values, 0, 0
        self.inits = []
        for o, acts in sorted((sc.get("init") or {}).items()):
            for ac in acts:
                X = Action(self, "action", "Init", None)
                X.a, X.obj, X.dom = ac, o, DOM[ac["k"]]
                X.path = "Init %s %sAction" % (o, {1: "Longitudinal", 2: "Lateral"}[X.dom])
                self.inits.append(X)
        self.root = El(self, "storyboard", "storyboard", None, stop=sc.get("stop") or [])
        for s in sc["stories"]:
            S = El(self, "story", s["name"], self.root)
            for a in s["acts"]:
                A = El(self, "act", a["name"], S, a.get("start"), a.get("stop"))
                for g in a["groups"]:
                    G = El(self, "maneuverGroup", g["name"], A, mx=g["max"])
                    for m in g["mans"]:
                        M = El(self, "maneuver", m["name"], G)
                        for e in m["events"]:
                            E = Event(self, "event", e["name"], M, e.get("start") if e.get("start") is not None else [], mx=e["max"])
                            E.prio = e["prio"]
                            for ac in e["actions"]:
                                for o in (g["actors"] if ac["k"] in DOM else [None]):
                                    X = Action(self, "action", ac["name"], E)
                                    X.a, X.obj, X.dom = ac, o, DOM.get(ac["k"], 0)
        byname = {}
        for e in self.els:
            byname.setdefault((e.typ, e.name), e)
        for e in self.els:
            for tr in (e.start_trig, e.stop_trig):
                for c in (tr.all() if tr else []):
                    if isinstance(c, StateCond):
                        byname[c.c["type"], c.c["ref"]].watch.append(c)

    def start(self, t):
        for a in self.inits:
            a.start(t)
        self.root.start(t)

    def step(self, t, dt):
        self.root.eval(t)
        for a in self.inits:
            if a.state == RUNNING:
                a.step(t, dt)
        self.root.step(t, dt)

    def take(self):
        l, self.log = self.log, []
        return l
