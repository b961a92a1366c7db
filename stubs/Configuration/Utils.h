#pragma once
namespace Euclid { namespace Configuration { long getUniqueManagerId() noexcept; } }
