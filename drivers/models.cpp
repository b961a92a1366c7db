#include "ModelFitting/Models/CircularlySymmetricModelComponent.h"
#include "ModelFitting/Models/SersicProfile.h"
template class ModelFitting::CircularlySymmetricModelComponent<ModelFitting::SersicProfile>;
ModelFitting::CircularlySymmetricModelComponent<ModelFitting::SersicProfile>
sx_make(std::unique_ptr<ModelFitting::SharpRegionManager> m, std::shared_ptr<ModelFitting::BasicParameter> a) {
  return ModelFitting::CircularlySymmetricModelComponent<ModelFitting::SersicProfile>(std::move(m), a, a, a);
}
