#pragma once
// A camera whose default sensor is small (the default configuration struct is specialised), so that
// every cache the camera keeps can be built symbolically.
#include "vp.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/cameras/sensors/simple_sensor.hpp"
using namespace huira;
#ifndef CAMRES
#define CAMRES 3
#endif
namespace huira { template <> struct SimpleSensorConfig<RGB> : public SensorConfig<RGB> { SimpleSensorConfig() { resolution = Resolution{CAMRES, CAMRES}; pitch_x = units::Micrometer(10000.0); pitch_y = units::Micrometer(10000.0); } }; }
#include "huira/cameras/camera_model.hpp"
using Cam = CameraModel<RGB>; using F3 = Vec3<float>;
