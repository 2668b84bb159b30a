// The magnetostatic mesh of /repo; no code of its own.
#include "magnetostatic/mesh.cpp"
