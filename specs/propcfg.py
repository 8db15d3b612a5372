"""per-property configuration of the extraction and notes on what is outside the contracts"""
import os
INST = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "inst")
MESH = dict(groups=["src/scenegraph/mesh.cpp", "src/scenegraph/meshfactory.cpp"], classes=("AL::Mesh",), headers=("scenegraph/mesh.h",))
URDF = dict(groups=[os.path.join(INST, "urdfeigen.cpp"), "src/scenegraph/urdf.cpp"], classes=("AL::urdf::Pose",),
            headers=("scenegraph/urdf.h",))
EIGEN = dict(groups=["src/types/*.cpp", os.path.join(INST, "almatheigen.cpp")])
QIANIM = dict(groups=["src/types/*.cpp", os.path.join(INST, "qianim.cpp"), "src/scenegraph/qianim.cpp"])
ELEMENTS = dict(groups=[os.path.join(INST, "urdf.cpp")])
CONFIG = {"C33": ELEMENTS, "C36": QIANIM, "C23": MESH, "C24": MESH, "C31": URDF, "C32": URDF, "C35": EIGEN}
