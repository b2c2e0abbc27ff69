"""Driving esminiLib from the checks."""
import ctypes as C
import capi
from pbt import Violation

ELEM_CB = C.CFUNCTYPE(None, C.c_char_p, C.c_int, C.c_int, C.c_char_p)
COND_CB = C.CFUNCTYPE(None, C.c_char_p, C.c_double)
OBJ_CB = C.CFUNCTYPE(None, C.POINTER(capi.SE_ScenarioObjectState), C.c_void_p)


class Sim:
    def __init__(self, se, env, xosc, xodr=None, record=None, opts=(), seed=None, elems=False, conds=False, disable_ctrls=0, name="sc", xodr_name="net.xodr", log=None):
        self.se = se
        self.changes, self.fired = [], []
        se.SE_SetLogFilePath((log or "").encode())
        for o in opts:
            if isinstance(o, (tuple, list)):
                se.SE_SetOptionValue(o[0].encode(), str(o[1]).encode())
            else:
                se.SE_SetOption(o.encode())
        if seed is not None:
            se.SE_SetSeed(seed)
        if xodr is not None:
            env.write(xodr_name, xodr)
        self.file = env.write(name + ".xosc", xosc)
        if elems:
            self._ecb = ELEM_CB(lambda n, t, s, p: self.changes.append((n.decode(), t, s, p.decode())))
            se.SE_RegisterStoryBoardElementStateChangeCallback(self._ecb)
        if conds:
            self._ccb = COND_CB(lambda n, t: self.fired.append((n.decode(), t)))
            se.SE_RegisterConditionCallback(self._ccb)
        if record:
            se.SE_SetDatFilePath(env.path(record).encode()) if hasattr(se, "SE_SetDatFilePath") else None
        self.rc = se.SE_Init(self.file.encode(), disable_ctrls, 0, 0, 1 if record else 0)

    def step(self, dt):
        return self.se.SE_StepDT(dt)

    def state(self, oid):
        s = capi.SE_ScenarioObjectState()
        if self.se.SE_GetObjectState(oid, C.byref(s)) != 0:
            raise Violation("rc", "the state of object %s is not available" % oid)
        if not capi.finite(s):
            raise Violation("nan", "a state value of object %s is not a number: %s" % (oid, s.dict()))
        return s

    def id(self, name):
        return self.se.SE_GetIdByName(name.encode())

    def take(self):
        c, self.changes = self.changes, []
        return c

    def close(self):
        self.se.SE_Close()
