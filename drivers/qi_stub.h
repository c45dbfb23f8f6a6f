// the little of libqi the headers of almath/scenegraph need
#pragma once
namespace qi { namespace geometry {
struct Vector3 { double x, y, z; };
struct Quaternion { double x, y, z, w; };
struct Transform { Quaternion rotation; Vector3 translation; };
} }
