// Instantiates the element geometry of /repo; no code of its own.
#include "geometry/vector.cpp"
#include "triangle/triangle.h"
#include "mesh/mesh.hpp"
