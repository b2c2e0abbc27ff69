"""ctypes bindings of the public C APIs; prototypes are read from the headers in /repo."""
import ctypes as C, os, re
from ctypes import c_int, c_double, c_uint, c_char_p, c_bool, c_void_p, POINTER, Structure
import pbt

ID_UNDEFINED = 0xffffffff


def _struct(name, spec):
    fields = []
    for part in spec.split(";"):
        part = part.split()
        if not part:
            continue
        t = dict(d=c_double, i=c_int, u=c_uint, s=c_char_p, b=c_bool)[part[0]]
        fields += [(n, t) for n in part[1:]]
    return type(name, (Structure,), {"_fields_": fields, "dict": lambda self: {f[0]: getattr(self, f[0]) for f in self._fields_}})


RM_PositionXYZ = _struct("RM_PositionXYZ", "d x y z")
RM_PositionData = _struct("RM_PositionData", "d x y z h p r hRelative; u roadId junctionId; i laneId; d laneOffset s")
RM_RoadLaneInfo = _struct("RM_RoadLaneInfo", "d x y z heading pitch roll width curvature speed_limit; u roadId junctionId; i laneId; d laneOffset s t; i road_type road_rule lane_type")


class RM_RoadProbeInfo(Structure):
    _fields_ = [("info", RM_RoadLaneInfo), ("rel", RM_PositionXYZ), ("relative_h", c_double)]


RM_PositionDiff = _struct("RM_PositionDiff", "d ds dt; i dLaneId")
RM_RoadSign = _struct("RM_RoadSign", "i id; d x y z z_offset h; u roadId; d s t; s name; i orientation; d length height width")
RM_RoadObjValidity = _struct("RM_RoadObjValidity", "i fromLane toLane")
RM_GeoReference = _struct("RM_GeoReference", "d a_; s axis_; d b_; s ellps_; d k_ k_0_ lat_0_ lon_0_ lon_wrap_ over_; s pm_ proj_ units_ vunits_; d x_0_ y_0_; s datum_ geo_id_grids_; d zone_; i towgs84_; s original_georef_str_")
SE_ScenarioObjectState = _struct("SE_ScenarioObjectState", "i id model_id ctrl_type; d timestamp x y z h p r; u roadId junctionId; d t; i laneId; d laneOffset s speed centerOffsetX centerOffsetY centerOffsetZ width length height; i objectType objectCategory; d wheel_angle wheel_rot; i visibilityMask")
SE_WheelData = _struct("SE_WheelData", "d x y z h p wheel_radius friction_coefficient; i axle index")
SE_LightState = _struct("SE_LightState", "i light_mode; b emitting")
SE_RoadInfo = _struct("SE_RoadInfo", "d global_pos_x global_pos_y global_pos_z local_pos_x local_pos_y local_pos_z angle road_heading road_pitch road_roll trail_heading curvature speed_limit; u roadId junctionId; i laneId; d laneOffset s t; i road_type road_rule lane_type; d trail_wheel_angle")
SE_RouteInfo = _struct("SE_RouteInfo", "d x y z h; u roadId junctionId; i laneId osiLaneId; d laneOffset s t")
SE_PositionDiff = _struct("SE_PositionDiff", "d ds dt; i dLaneId; d dx dy; b oppositeLanes")
SE_SimpleVehicleState = _struct("SE_SimpleVehicleState", "d x y z h p speed wheel_rotation wheel_angle")
SE_RoadSign = _struct("SE_RoadSign", "i id; d x y z z_offset h; i roadId; d s t; s name; i orientation; d length height width")
SE_RoadObjValidity = _struct("SE_RoadObjValidity", "i fromLane toLane")
SE_SpeedActionStruct = _struct("SE_SpeedActionStruct", "i id; d speed; i transition_shape transition_dim; d transition_value")
SE_LaneChangeActionStruct = _struct("SE_LaneChangeActionStruct", "i id mode target transition_shape transition_dim; d transition_value")
SE_LaneOffsetActionStruct = _struct("SE_LaneOffsetActionStruct", "i id; d offset maxLateralAcc; i transition_shape")
SE_LaneBoundaryId = _struct("SE_LaneBoundaryId", "u far_left_lb_id left_lb_id right_lb_id far_right_lb_id")
SE_OSCBoundingBox = _struct("SE_OSCBoundingBox", "d cx cy cz width length height")


class SE_OverridePedal(Structure):
    _fields_ = [("active", c_bool), ("value", c_double), ("maxRate", c_double)]


class SE_OverrideBrake(Structure):
    _fields_ = [("active", c_bool), ("type", c_int), ("value", c_double), ("maxRate", c_double), ("value_type", c_int)]


class SE_OverrideSteering(Structure):
    _fields_ = [("active", c_bool), ("value", c_double), ("maxRate", c_double), ("maxTorque", c_double)]


class SE_OverrideGear(Structure):
    _fields_ = [("active", c_bool), ("type", c_int), ("number", c_int), ("value_type", c_int)]


class SE_OverrideActionList(Structure):
    _fields_ = [("throttle", SE_OverridePedal), ("brake", SE_OverrideBrake), ("clutch", SE_OverridePedal),
                ("parkingBrake", SE_OverrideBrake), ("steeringWheel", SE_OverrideSteering), ("gear", SE_OverrideGear)]


class SE_Parameter(Structure):
    _fields_ = [("name", c_char_p), ("value", c_void_p)]


SE_Variable = SE_Parameter

_T = {"int": c_int, "double": c_double, "bool": c_bool, "id_t": c_uint, "unsigned int": c_uint, "void": None,
      "SE_PositionModeType": c_int, "SE_VehicleLightType": c_int, "SE_RelativeDistanceType": c_int, "SE_OSIStaticReportMode": c_int,
      "unsigned long long": C.c_ulonglong}


def _ctype(t):
    t = re.sub(r"\bconst\b", "", t).strip()
    t = re.sub(r"\s+", " ", t)
    stars = t.count("*")
    b = t.replace("*", "").strip()
    if stars == 0:
        return _T.get(b) if b in _T else globals().get(b)
    if b == "char":
        return c_char_p if stars == 1 else POINTER(c_char_p)
    if b == "void":
        return c_void_p
    ct = _T.get(b) or globals().get(b)
    return POINTER(ct) if ct is not None else c_void_p


def _load(so, header, macro):
    # fill allocated and freed memory with a pattern, so that reading uninitialised or released memory shows
    C.CDLL(None).mallopt(-6, 0x5a)
    lib = C.CDLL(os.path.join(pbt.BUILD, so), mode=os.RTLD_NOW | os.RTLD_LOCAL)
    txt = open(os.path.join(pbt.REPO, "EnvironmentSimulator/Libraries", header), errors="replace").read()
    txt = re.sub(r"/\*.*?\*/", "", txt, flags=re.S)
    txt = re.sub(r"//[^\n]*", "", txt)
    for m in re.finditer(macro + r"\s+([\w\s\*]+?)\b(\w+)\s*\(((?:[^()]|\([^()]*\))*)\)\s*;", txt):
        ret, name, args = m.group(1), m.group(2), m.group(3)
        if not hasattr(lib, name):
            continue
        f = getattr(lib, name)
        f.restype = _ctype(ret)
        if "(" in args:            # callbacks: leave untyped
            continue
        al = [x.strip() for x in args.split(",") if x.strip() and x.strip() != "void"]
        types = []
        for x in al:
            mm = re.match(r"(.*?)(\w+)\s*(\[\])?$", x, re.S)
            types.append(_ctype(mm.group(1) + ("*" if mm.group(3) else "")))
        f.argtypes = types
    return lib


def rm():
    return _load("libesminiRMLib.so", "esminiRMLib/esminiRMLib.hpp", "RM_DLL_API")


def se():
    return _load("libesminiLib.so", "esminiLib/esminiLib.hpp", "SE_DLL_API")


def finite(*structs):
    """all floating point members are finite numbers"""
    import math
    for s in structs:
        for f in s._fields_:
            v = getattr(s, f[0])
            if isinstance(v, float) and not math.isfinite(v):
                return False
            if isinstance(v, Structure) and not finite(v):
                return False
    return True
