// C34: images of what a camera sees
//! entry: seen time=60
//! entry: sky time=60
//! entry: frame time=60
//! entry: fresh time=60
//! entry: wrong time=40
//! libs: -lassimp -lfftw3f -lpng -lturbojpeg -ltiff -lcfitsio
//! assume: the ray-tracing library is a stand-in: every instance is the whole plane through its place, facing the camera
//! bound: images of 2 by 2 or 3 by 2 pixels, concrete camera rotations; exact real arithmetic
#define CAMRES 2
#include "scene34.hpp"
ENTRY seen() {   // what the camera sees directly
    init(); World w(vp_choice("rotation", 3)); w.C.configure_sensor_from_pitch(Resolution{3, 2}, units::Micrometer(10000.), units::Micrometer(25000.)); auto me = tri(w.sc), other = tri(w.sc); auto m = w.sc.new_material(w.sc.new_bsdf_lambertian()); S al = rgb("albedo", 0.1f, 1), em = rgb("glow", 0, 10); m.set_albedo_factor(al); m.set_emissive_factor(em); auto p = w.sc.add_primitive(me, m), q = w.sc.add_primitive(other); static const double Z[3] = {1, 7.5, 80}; double z = Z[vp_choice("depth", 3)]; bool some = vp_choice("surface", 2); if (some) { w.put(p, D3(-0.25, -0.25, z)); w.put(q, D3(0, 0, z + vp_in("further", 1, 10))); } S bg = rgb("sky", 0, 10); w.sc.set_background_radiance(bg); auto v = w.view(); FB fb = w.C.make_frame_buffer(); bool all = vp_choice("all", 2); fb.enable_received_power(); if (all) { fb.enable_depth(); fb.enable_albedo(); fb.enable_geometry_ids(); fb.enable_camera_normals(); fb.enable_world_normals(); fb.enable_received_direct_power(); fb.enable_received_indirect_power(); } Rend R; R.set_max_bounces(1); int spp = 1 + vp_choice("samples", 2); R.set_samples_per_pixel(spp); if (spp == 1) script({vp_inf("jitter", 0, 0.99f), vp_inf("jitter", 0, 0.99f)}); else script({});
    R.render(v, fb); for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) { float k = w.C.get()->pixel_radiance_to_power(x, y); S want = (some ? em : bg) * k; same(fb.received_power()(x, y), want, 1e-4, "pixels receive the radiance they see"); if (!all) { vp_check(!fb.has_depth() && !fb.has_albedo() && !fb.has_geometry_ids() && !fb.has_camera_normals() && !fb.has_world_normals() && !fb.has_received_direct_power() && !fb.has_received_indirect_power() && !fb.has_sensor_response(), "only the images asked for are made"); continue; } same(fb.received_direct_power()(x, y), want, 1e-4, "what is seen directly is direct"); same(fb.received_indirect_power()(x, y), S{0}, 0, "without bounces nothing is indirect");
        if (some) { auto near = [&](float a, float b) { return z / w.C.get()->cast_ray(Pixel{a, b}).direction().z; }; if (spp == 2 || x + y) vp_check_close(fb.depth()(x, y), near((float)x + 0.5f, (float)y + 0.5f), 1e-3, "depths are distances to the nearest surface"); else vp_check_close(fb.depth()(x, y), near(rolls[0], rolls[1]), 1e-2, "depths are distances to the nearest surface"); vp_check(fb.geometry_ids()(x, y) == me.get()->id(), "ids are those of the surface seen"); same(fb.albedo()(x, y), al, 1e-4, "albedos are those of the surface seen"); vp_close3(d3(fb.camera_normals()(x, y)), D3(0, 0, -1), 1e-4, "normals are those of the surface seen"); vp_close3(d3(fb.world_normals()(x, y)), w.K * D3(0, 0, -1), 1e-4, "world normals are in the world's axes"); }
        else { vp_check(std::isinf(fb.depth()(x, y)) && fb.depth()(x, y) > 0, "the sky is infinitely far"); vp_check(fb.geometry_ids()(x, y) != me.get()->id() && fb.geometry_ids()(x, y) != other.get()->id(), "the sky is no surface"); same(fb.albedo()(x, y), S{0}, 0, "the sky has no albedo"); vp_close3(d3(fb.camera_normals()(x, y)), D3(0), 0, "the sky has no normals"); vp_close3(d3(fb.world_normals()(x, y)), D3(0), 0, "the sky has no normals"); } } vp_cover("seen");
}
ENTRY sky() {   // the background is where it is in the world
    init(); World w(vp_choice("rotation", 3)); w.C.configure_sensor_from_pitch(Resolution{3, 2}, units::Micrometer(10000.), units::Micrometer(25000.)); Image<S> im(5, 3, S{0}); float a = vp_inf("a", 0, 5), b = vp_inf("b", 0, 5); for (int y = 0; y < 3; ++y) for (int x = 0; x < 5; ++x) im(x, y) = S{y == 0 ? a : 0.f, (float)(x + 1) * (y == 1 ? b : 0.f), y == 2 ? 1.f : 0.f}; Image<S> copy = im; w.sc.set_background_radiance(std::move(im)); auto v = w.view(); FB fb = w.C.make_frame_buffer(); fb.enable_received_power(); Rend R; R.set_max_bounces(1); R.set_samples_per_pixel(1); script({}); R.render(v, fb);
    for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) { D3 d = w.K * d3(w.C.get()->cast_ray(Pixel{(float)x + 0.5f, (float)y + 0.5f}).direction()); float uu = 0.5f + std::atan2((float)d.z, (float)d.x) * (0.5f * INV_PI<float>()), vv = 0.5f - std::asin((float)d.y) * INV_PI<float>(); S want = copy.sample_bilinear(uu, vv); same(fb.received_power()(x, y), want * w.C.get()->pixel_radiance_to_power(x, y), 1e-3, "the background is where it is in the world"); } vp_cover("sky");
}
ENTRY frame() {   // which images there are, and what they hold before anything is rendered
    init(); World w; FB fb = w.C.make_frame_buffer(); bool on[9]; for (auto& o : on) o = false; int what = vp_choice("image", 9); auto en = [&](int k, bool e) { if (k == 0) fb.enable_depth(e); if (k == 1) fb.enable_albedo(e); if (k == 2) fb.enable_geometry_ids(e); if (k == 3) fb.enable_camera_normals(e); if (k == 4) fb.enable_world_normals(e); if (k == 5) fb.enable_received_direct_power(e); if (k == 6) fb.enable_received_indirect_power(e); if (k == 7) fb.enable_received_power(e); if (k == 8) fb.enable_sensor_response(e); on[k] = e; if (k == 8 && e) on[7] = true; };
    auto chk = [&] { bool h[9] = {fb.has_depth(), fb.has_albedo(), fb.has_geometry_ids(), fb.has_camera_normals(), fb.has_world_normals(), fb.has_received_direct_power(), fb.has_received_indirect_power(), fb.has_received_power(), fb.has_sensor_response()}; for (int k = 0; k < 9; ++k) vp_check(h[k] == on[k], "images are there once asked for, until told otherwise"); }; vp_check(fb.width() == 2 && fb.height() == 2 && fb.resolution() == w.C.get()->resolution(), "frames are as large as the sensor"); chk(); int other = vp_choice("other", 9), seq = vp_choice("sequence", 3); en(what, true); chk(); if (seq == 0) { en(other, true); chk(); en(what, false); chk(); } else if (seq == 1) { en(other, false); chk(); en(what, true); chk(); } else { en(other, true); chk(); en(other, false); chk(); }
    for (int k = 0; k < 9; ++k) if (!on[k]) en(k, true); for (int r = 0; r < 2; ++r) { for (int y = 0; y < 2; ++y) for (int x = 0; x < 2; ++x) { vp_check(std::isinf(fb.depth()(x, y)) && fb.geometry_ids()(x, y) == 0, "images start empty, and are empty once cleared"); vp_check(fb.camera_normals()(x, y) == F3(0) && fb.world_normals()(x, y) == F3(0), "images start empty, and are empty once cleared"); for (int c = 0; c < 3; ++c) vp_check(fb.albedo()(x, y)[(size_t)c] == 0 && fb.received_power()(x, y)[(size_t)c] == 0 && fb.received_direct_power()(x, y)[(size_t)c] == 0 && fb.received_indirect_power()(x, y)[(size_t)c] == 0 && fb.sensor_response()(x, y)[(size_t)c] == 0, "images start empty, and are empty once cleared"); if (!r) { fb.depth()(x, y) = vp_inf("junk", 0, 9); fb.geometry_ids()(x, y) = 7; fb.camera_normals()(x, y) = fb.world_normals()(x, y) = F3(1, 2, 3); S j = rgb("junk", 0, 1); fb.albedo()(x, y) = fb.received_power()(x, y) = fb.received_direct_power()(x, y) = fb.received_indirect_power()(x, y) = fb.sensor_response()(x, y) = j; } } if (!r) fb.clear(); } vp_cover("frame");
}
ENTRY fresh() {   // nothing of an earlier rendering is left, and nothing else changes
    init(); World w; auto me = tri(w.sc); auto m = w.sc.new_material(w.sc.new_bsdf_lambertian()); S em = rgb("glow", 0, 10), bg = rgb("sky", 0, 10); m.set_emissive_factor(em); auto p = w.sc.add_primitive(me, m); bool glare = vp_choice("glare", 2); float a = vp_inf("veil", 0, 1); if (glare) w.C.set_veiling_glare(a); FB fb = w.C.make_frame_buffer(); fb.enable_received_power(); Rend R; R.set_max_bounces(1); R.set_samples_per_pixel(1); script({}); { Scene<S>& sc = w.sc; sc.set_background_radiance(bg); } auto v0 = w.view(); auto in = w.put(p, D3(-0.25, -0.25, 5)); auto v1 = w.view(); bool order = vp_choice("order", 2); R.render(order ? v1 : v0, fb); R.render(order ? v0 : v1, fb); S see = order ? bg : em, tot{0}; for (int y = 0; y < 2; ++y) for (int x = 0; x < 2; ++x) tot += see * w.C.get()->pixel_radiance_to_power(x, y);
    for (int y = 0; y < 2; ++y) for (int x = 0; x < 2; ++x) { S want = see * w.C.get()->pixel_radiance_to_power(x, y); if (glare) want = want * (1 - a) + tot * (a / 4); same(fb.received_power()(x, y), want, 1e-4, glare ? "veiling glare spreads a share of all light evenly" : "nothing of an earlier rendering is left"); } vp_check(!fb.has_depth(), "rendering makes no images that were not asked for"); vp_cover("fresh");
}
ENTRY wrong() { init(); World w; FB fb = w.C.make_frame_buffer(); fb.enable_received_power(); int a = 1 + vp_choice("w", 3), b = 1 + vp_choice("h", 3); w.C.configure_sensor_from_pitch(Resolution{a, b}, units::Micrometer(10000.)); auto v = w.view(); Rend R; R.set_samples_per_pixel(1); script({}); bool t = vp_throws([&] { R.render(v, fb); }); vp_check(t == (a != 2 || b != 2), "frames of another size are refused"); vp_cover("wrong"); }
