// Shapes: which positions they contain.
#include "system/Shape.cpp"

namespace cpb {
/// Client: the positions contained in a line
inline ArrayX<bool> within_line(Cartesian a, Cartesian b, CartesianArrayConstRef positions) {
    auto const line = Line(a, b);
    return line.contains(positions);
}

/// Client: the bounding box of a shape given by a function
inline Shape::Vertices freeform_vertices(Cartesian width, Cartesian center, Shape::Contains const& contains) {
    return FreeformShape(contains, width, center).vertices;
}
}
