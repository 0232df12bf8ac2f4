// instantiates the templates of the public headers, so that they can be analysed whether or not the library uses them
#include "DynamicObstacleAvoidance/Utils/MathTools.hpp"
template int DynamicObstacleAvoidance::MathTools::sign<double>(double);
template int DynamicObstacleAvoidance::MathTools::sign<int>(int);
