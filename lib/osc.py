"""OpenSCENARIO builder: plain functions from JSON-like values to XML strings."""
import math

RULES = ["greaterThan", "greaterOrEqual", "lessThan", "lessOrEqual", "equalTo", "notEqualTo"]
EDGES = ["none", "rising", "falling", "risingOrFalling"]


def num(v):
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    return repr(round(v, 9) + 0.0)


def tag(name, attrs=None, *body):
    a = "".join(' %s="%s"' % (k, num(v)) for k, v in (attrs or {}).items() if v is not None)
    b = "".join(body)
    return "<%s%s>%s</%s>" % (name, a, b, name) if b else "<%s%s/>" % (name, a)


# ---------------------------------------------------------------- entities

def bbox(bb):
    """bb = [cx, cy, cz, length, width, height]"""
    return tag("BoundingBox", None, tag("Center", dict(x=bb[0], y=bb[1], z=bb[2])), tag("Dimensions", dict(length=bb[3], width=bb[4], height=bb[5])))


def vehicle(name, bb=None, maxspeed=70.0, maxacc=10.0, maxdec=10.0, cat="car", props="", controller="", axles=None, extra="", model=None):
    bb = bb or [1.4, 0.0, 0.75, 5.0, 2.0, 1.5]
    ax = axles or [0.5, 3.0]
    return tag("ScenarioObject", dict(name=name), tag("Vehicle", dict(name="car_" + name, vehicleCategory=cat, model3d=model),
               bbox(bb), tag("Performance", dict(maxSpeed=maxspeed, maxAcceleration=maxacc, maxDeceleration=maxdec)),
               tag("Axles", None, tag("FrontAxle", dict(maxSteering=ax[0], wheelDiameter=0.8, trackWidth=1.68, positionX=ax[1], positionZ=0.4)),
                   tag("RearAxle", dict(maxSteering=0.0, wheelDiameter=0.8, trackWidth=1.68, positionX=0.0, positionZ=0.4))),
               tag("Properties", None, props), extra), controller)


def pedestrian(name, bb=None):
    return tag("ScenarioObject", dict(name=name), tag("Pedestrian", dict(name="ped_" + name, mass=80.0, model="", pedestrianCategory="pedestrian"), bbox(bb or [0.0, 0.0, 0.9, 0.6, 0.6, 1.8]), tag("Properties")))


def misc(name, bb=None):
    return tag("ScenarioObject", dict(name=name), tag("MiscObject", dict(name="obj_" + name, mass=10.0, miscObjectCategory="obstacle"), bbox(bb or [0.0, 0.0, 0.5, 1.0, 1.0, 1.0]), tag("Properties")))


# ---------------------------------------------------------------- positions

def orient(o):
    """o = dict(type=absolute|relative, h, p, r) or None"""
    return "" if o is None else tag("Orientation", dict(type=o.get("type"), h=o.get("h"), p=o.get("p"), r=o.get("r")))


def position(p):
    k, o = p["k"], orient(p.get("o"))
    if k == "world":
        b = tag("WorldPosition", dict(x=p["x"], y=p["y"], z=p.get("z"), h=p.get("h"), p=p.get("p"), r=p.get("r")))
    elif k == "lane":
        b = tag("LanePosition", dict(roadId=p["road"], laneId=p["lane"], s=p["s"], offset=p.get("off")), o)
    elif k == "road":
        b = tag("RoadPosition", dict(roadId=p["road"], s=p["s"], t=p["t"]), o)
    elif k == "rellane":
        b = tag("RelativeLanePosition", dict(entityRef=p["ref"], dLane=p["dlane"], ds=p.get("ds"), dsLane=p.get("dslane"), offset=p.get("off")), o)
    elif k == "relroad":
        b = tag("RelativeRoadPosition", dict(entityRef=p["ref"], ds=p["ds"], dt=p["dt"]), o)
    elif k == "relworld":
        b = tag("RelativeWorldPosition", dict(entityRef=p["ref"], dx=p["dx"], dy=p["dy"], dz=p.get("dz")), o)
    elif k == "relobj":
        b = tag("RelativeObjectPosition", dict(entityRef=p["ref"], dx=p["dx"], dy=p["dy"], dz=p.get("dz")), o)
    elif k == "raw":
        b = p["xml"]
    else:
        raise KeyError(k)
    return tag("Position", None, b)


# ---------------------------------------------------------------- conditions

def condition(c):
    k = c["k"]
    if k == "var":
        b = tag("ByValueCondition", None, tag("VariableCondition", dict(variableRef=c["ref"], value=c["value"], rule=c["rule"])))
    elif k == "param":
        b = tag("ByValueCondition", None, tag("ParameterCondition", dict(parameterRef=c["ref"], value=c["value"], rule=c["rule"])))
    elif k == "time":
        b = tag("ByValueCondition", None, tag("SimulationTimeCondition", dict(value=c["value"], rule=c["rule"])))
    elif k == "state":
        b = tag("ByValueCondition", None, tag("StoryboardElementStateCondition", dict(storyboardElementType=c["type"], storyboardElementRef=c["ref"], state=c["state"])))
    elif k == "signal":
        b = tag("ByValueCondition", None, tag("TrafficSignalCondition", dict(name=c["ref"], state=c["state"])))
    elif k == "sigctrl":
        b = tag("ByValueCondition", None, tag("TrafficSignalControllerCondition", dict(trafficSignalControllerRef=c["ref"], phase=c["phase"])))
    elif k == "entity":
        b = tag("ByEntityCondition", None, tag("TriggeringEntities", dict(triggeringEntitiesRule=c.get("any", "any")), *[tag("EntityRef", dict(entityRef=e)) for e in c["who"]]),
                tag("EntityCondition", None, c["xml"]))
    else:
        raise KeyError(k)
    return tag("Condition", dict(name=c["name"], delay=c.get("delay", 0), conditionEdge=c.get("edge", "none")), b)


def trigger(name, groups):
    if groups is None:
        return ""
    return tag(name, None, *[tag("ConditionGroup", None, *[condition(c) for c in g]) for g in groups])


# ---------------------------------------------------------------- actions

def dyn(d):
    return dict(dynamicsShape=d.get("shape", "step"), dynamicsDimension=d.get("dim", "time"), value=d.get("v", 0.0), followingMode=d.get("mode"))


def private(a):
    k = a["k"]
    if k == "speed":
        t = tag("AbsoluteTargetSpeed", dict(value=a["v"])) if not a.get("ref") else tag("RelativeTargetSpeed", dict(entityRef=a["ref"], value=a["v"], speedTargetValueType=a.get("vt", "delta"), continuous=bool(a.get("cont"))))
        return tag("LongitudinalAction", None, tag("SpeedAction", None, tag("SpeedActionDynamics", dyn(a["dyn"])), tag("SpeedActionTarget", None, t)))
    if k == "profile":
        lim = tag("DynamicConstraints", {n: v for n, v in a["lim"].items()}) if a.get("lim") else ""
        return tag("LongitudinalAction", None, tag("SpeedProfileAction", dict(followingMode=a.get("mode", "follow"), entityRef=a.get("ref")), lim,
                   *[tag("SpeedProfileEntry", dict(speed=e["v"], time=e.get("t"))) for e in a["entries"]]))
    if k == "teleport":
        return tag("TeleportAction", None, position(a["pos"]))
    if k == "lanechange":
        t = tag("AbsoluteTargetLane", dict(value=a["lane"])) if not a.get("ref") else tag("RelativeTargetLane", dict(entityRef=a["ref"], value=a["lane"]))
        return tag("LateralAction", None, tag("LaneChangeAction", dict(targetLaneOffset=a.get("off")), tag("LaneChangeActionDynamics", dyn(a["dyn"])), tag("LaneChangeTarget", None, t)))
    if k == "laneoffset":
        t = tag("AbsoluteTargetLaneOffset", dict(value=a["off"])) if not a.get("ref") else tag("RelativeTargetLaneOffset", dict(entityRef=a["ref"], value=a["off"]))
        return tag("LateralAction", None, tag("LaneOffsetAction", dict(continuous=bool(a.get("cont"))), tag("LaneOffsetActionDynamics", dict(dynamicsShape=a.get("shape", "cubic"), maxLateralAcc=a.get("maxacc"))), tag("LaneOffsetTarget", None, t)))
    if k == "visibility":
        return tag("VisibilityAction", dict(graphics=a["g"], traffic=a["t"], sensors=a["s"]))
    if k == "raw":
        return a["xml"]
    raise KeyError(k)


def glob(a):
    k = a["k"]
    if k == "setvar":
        return tag("GlobalAction", None, tag("VariableAction", dict(variableRef=a["ref"]), tag("SetAction", dict(value=a["value"]))))
    if k in ("addvar", "mulvar"):
        r = tag("AddValue", dict(value=a["value"])) if k == "addvar" else tag("MultiplyByValue", dict(value=a["value"]))
        return tag("GlobalAction", None, tag("VariableAction", dict(variableRef=a["ref"]), tag("ModifyAction", None, tag("Rule", None, r))))
    if k == "setparam":
        return tag("GlobalAction", None, tag("ParameterAction", dict(parameterRef=a["ref"]), tag("SetAction", dict(value=a["value"]))))
    if k == "user":
        return tag("UserDefinedAction", None, "<CustomCommandAction type=\"t\">x</CustomCommandAction>")
    if k == "rawglobal":
        return a["xml"]
    return None


def is_private(a):
    return a["k"] not in ("setvar", "addvar", "mulvar", "setparam", "user", "rawglobal")


def action(a):
    g = glob(a)
    return tag("Action", dict(name=a["name"]), g if g is not None else tag("PrivateAction", None, private(a)))


# ---------------------------------------------------------------- storyboard

def event(e):
    return tag("Event", dict(name=e["name"], priority=e.get("prio", "parallel"), maximumExecutionCount=e.get("max")),
               *([action(a) for a in e["actions"]] + [trigger("StartTrigger", e.get("start"))]))


def maneuver(m):
    return tag("Maneuver", dict(name=m["name"]), *[event(e) for e in m["events"]])


def group(g):
    return tag("ManeuverGroup", dict(name=g["name"], maximumExecutionCount=g.get("max", 1)),
               tag("Actors", dict(selectTriggeringEntities=False), *[tag("EntityRef", dict(entityRef=a)) for a in g.get("actors") or []]), *[maneuver(m) for m in g["mans"]])


def act(a):
    return tag("Act", dict(name=a["name"]), *([group(g) for g in a["groups"]] + [trigger("StartTrigger", a.get("start")), trigger("StopTrigger", a.get("stop"))]))


def story(s):
    return tag("Story", dict(name=s["name"]), *[act(a) for a in s["acts"]])


def scenario(sc, xodr="net.xodr", minor=3):
    """sc: params, vars: [[name, type, value]], entities: [xml], init: {entity: [private action]}, ginit: [global actions], stories, stop, catalogs"""
    params = "".join(tag("ParameterDeclaration", dict(name=n, parameterType=t, value=v)) for n, t, v in sc.get("params") or [])
    vs = "".join(tag("VariableDeclaration", dict(name=n, variableType=t, value=v)) for n, t, v in sc.get("vars") or [])
    ini = "".join(glob(a) for a in sc.get("ginit") or [])
    ini += "".join(tag("Private", dict(entityRef=e), *[tag("PrivateAction", None, private(a)) for a in acts]) for e, acts in (sc.get("init") or {}).items() if acts)
    return ("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<OpenSCENARIO>" + tag("FileHeader", dict(revMajor=1, revMinor=minor, date="2024-01-01T00:00:00", description="t", author="t"))
            + tag("ParameterDeclarations", None, params) + (tag("VariableDeclarations", None, vs) if vs else "") + tag("CatalogLocations", None, sc.get("catalogs") or "")
            + tag("RoadNetwork", None, tag("LogicFile", dict(filepath=xodr)) if xodr else "", sc.get("signals") or "") + tag("Entities", None, *sc["entities"])
            + tag("Storyboard", None, tag("Init", None, tag("Actions", None, ini)), *([story(s) for s in sc.get("stories") or []] + [trigger("StopTrigger", sc.get("stop")) or "<StopTrigger/>"]))
            + "</OpenSCENARIO>\n")


def simple_story(events, actors, name="story"):
    """one story with one act that starts at once, with one maneuver"""
    return dict(name=name, acts=[dict(name="act", start=[[dict(k="time", name="actstart", value=0.0, rule="greaterOrEqual")]],
                groups=[dict(name="mg", max=1, actors=actors, mans=[dict(name="man", events=events)])])])


def straight_road(length=1000.0, left=2, right=2, width=3.5, rid="1"):
    """OpenDRIVE of one straight road along the x axis"""
    def ln(i):
        return '<lane id="%d" type="driving" level="false"><width sOffset="0" a="%g" b="0" c="0" d="0"/></lane>' % (i, width)
    return ('<OpenDRIVE><header revMajor="1" revMinor="5"/><road name="" length="%r" id="%s" junction="-1"><planView><geometry s="0" x="0" y="0" hdg="0" length="%r"><line/></geometry></planView>'
            '<lanes><laneSection s="0"><left>%s</left><center><lane id="0" type="none" level="false"/></center><right>%s</right></laneSection></lanes></road></OpenDRIVE>'
            % (length, rid, length, "".join(ln(i) for i in range(left, 0, -1)), "".join(ln(-i) for i in range(1, right + 1))))
