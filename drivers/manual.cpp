#include "ModelFitting/Parameters/ManualParameter.h"
ModelFitting::ManualParameter* sx_make() { return new ModelFitting::ManualParameter(1.0); }
