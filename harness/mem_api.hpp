#pragma once
// internal to the translation units that touch the repository's classes
#include "ds.hpp"
namespace TrRouting { class TransitData; class GeoFilter; }
Resp memAnswer(TrRouting::TransitData&, TrRouting::GeoFilter&, const std::string& what, const Params&);
