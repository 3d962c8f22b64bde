//! entry: factors time=40
//! entry: roundtrip time=60
//! entry: algebra time=60
//! entry: mixed time=60
//! entry: order time=40
//! entry: dims time=20
//! entry: nan_values time=20
//! entry: literals time=20
//! entry: spectral time=40
//! bound: values within [-1e6,1e6]; every declared unit of every dimension; no loops bounded
#include "vp.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/units/units.hpp"
using namespace huira; using namespace huira::units;
static const double P = 3.141592653589793238462643383279502884;
// relative closeness written without dividing: |a-b| <= 1e-9*|b| + tiny
static void rel(double a, double b, const char* l) { double s = b < 0 ? -b : b; vp_check(a - b <= 1e-9 * s + 1e-300 && b - a <= 1e-9 * s + 1e-300, l); }
template <class U> static void fac(double v, double f, const char* l) {
    U u(v); rel(u.to_si(), v * f, l); rel(u.value(), v, l); vp_check(u.raw_value() == u.value(), l);
    using B = Quantity<typename U::dimension_type, std::ratio<1, 1>>;
    B b(u); rel(b.value(), v * f, l); U back(B{v}); rel(back.value() * f, v, l); rel(u.template as<B>().value(), v * f, l); rel(B{v}.template as<U>().value() * f, v, l);
}
ENTRY factors() {
    double v = vp_in("v", -1e6, 1e6);
    fac<Kilometer>(v, 1000, "kilometre"); fac<Meter>(v, 1, "metre"); fac<Centimeter>(v, 0.01, "centimetre"); fac<Millimeter>(v, 1e-3, "millimetre"); fac<Micrometer>(v, 1e-6, "micrometre"); fac<Nanometer>(v, 1e-9, "nanometre"); fac<AstronomicalUnit>(v, 149597870700.0, "astronomical unit"); fac<Foot>(v, 0.3048, "foot"); fac<Yard>(v, 0.9144, "yard"); fac<Mile>(v, 1609.344, "mile");
    fac<Kilogram>(v, 1, "kilogram"); fac<Gram>(v, 1e-3, "gram"); fac<Milligram>(v, 1e-6, "milligram");
    fac<SiderealDay>(v, 86164.0905, "sidereal day"); fac<Day>(v, 86400, "day"); fac<Hour>(v, 3600, "hour"); fac<Minute>(v, 60, "minute"); fac<Second>(v, 1, "second"); fac<Millisecond>(v, 1e-3, "millisecond"); fac<Microsecond>(v, 1e-6, "microsecond"); fac<Nanosecond>(v, 1e-9, "nanosecond"); fac<Femtosecond>(v, 1e-15, "femtosecond");
    fac<Radian>(v, 1, "radian"); fac<Degree>(v, P / 180, "degree"); fac<Arcminute>(v, P / 10800, "arcminute"); fac<Arcsecond>(v, P / 648000, "arcsecond"); fac<Steradian>(v, 1, "steradian"); fac<SquareDegree>(v, (P / 180) * (P / 180), "square degree");
    fac<Diopter>(v, 1, "diopter"); fac<Millidiopter>(v, 1e-3, "millidiopter"); fac<Microdiopter>(v, 1e-6, "microdiopter");
    fac<MetersPerSecond>(v, 1, "metres per second"); fac<KilometersPerSecond>(v, 1000, "kilometres per second"); fac<MilesPerHour>(v, 0.44704, "miles per hour"); fac<KilometersPerHour>(v, 1000.0 / 3600, "kilometres per hour"); fac<RadiansPerSecond>(v, 1, "radians per second"); fac<DegreesPerSecond>(v, P / 180, "degrees per second");
    fac<Hertz>(v, 1, "hertz"); fac<Kilohertz>(v, 1e3, "kilohertz"); fac<Megahertz>(v, 1e6, "megahertz"); fac<Gigahertz>(v, 1e9, "gigahertz"); fac<Terahertz>(v, 1e12, "terahertz");
    fac<Newton>(v, 1, "newton"); fac<Kilonewton>(v, 1e3, "kilonewton"); fac<Pascal>(v, 1, "pascal"); fac<Kilopascal>(v, 1e3, "kilopascal"); fac<Joule>(v, 1, "joule"); fac<Kilojoule>(v, 1e3, "kilojoule"); fac<Megajoule>(v, 1e6, "megajoule"); fac<ElectronVolt>(v, 1.602176634e-19, "electronvolt");
    fac<SquareMeter>(v, 1, "square metre"); fac<SquareCentimeter>(v, 1e-4, "square centimetre"); fac<SquareMillimeter>(v, 1e-6, "square millimetre"); fac<Milliwatt>(v, 1e-3, "milliwatt"); fac<Watt>(v, 1, "watt"); fac<Kilowatt>(v, 1e3, "kilowatt"); fac<Megawatt>(v, 1e6, "megawatt"); fac<Gigawatt>(v, 1e9, "gigawatt");
    fac<Coulomb>(v, 1, "coulomb"); fac<WattsPerMeterSquaredSteradian>(v, 1, "radiance"); fac<WattsPerMeterSquared>(v, 1, "irradiance"); fac<WattsPerSteradian>(v, 1, "radiant intensity"); fac<Lumen>(v, 1, "lumen"); fac<Ampere>(v, 1, "ampere"); fac<Mole>(v, 1, "mole"); fac<Candela>(v, 1, "candela"); fac<Kelvin>(v, 1, "kelvin");
    vp_check_close(Celsius(v).to_si(), v + 273.15, 1e-6, "Celsius to kelvin"); vp_check_close(Celsius(Kelvin(v)).value(), v - 273.15, 1e-6, "kelvin to Celsius"); vp_check_close(Fahrenheit(v).to_si(), (v + 459.67) * 5 / 9, 1e-5, "Fahrenheit to kelvin"); vp_check_close(Fahrenheit(Kelvin(v)).value(), v * 9 / 5 - 459.67, 1e-5, "kelvin to Fahrenheit"); vp_check_close(Fahrenheit(Celsius(v)).value(), v * 1.8 + 32, 1e-5, "Celsius to Fahrenheit"); vp_check_close(Celsius(Fahrenheit(v)).value(), (v - 32) / 1.8, 1e-5, "Fahrenheit to Celsius");
    vp_cover("factors");
}
template <class A, class Bu> static void rt(double v, const char* l) { A a(v); rel(A(Bu(a)).value(), v, l); rel(Bu(a).to_si(), a.to_si(), l); rel(a.template as<Bu>().to_si(), a.to_si(), l); }
ENTRY roundtrip() {
    double v = vp_in("v", -1e6, 1e6);
    rt<Mile, Foot>(v, "mile-foot"); rt<Mile, AstronomicalUnit>(v, "mile-au"); rt<Yard, Kilometer>(v, "yard-km"); rt<Nanometer, Kilometer>(v, "nm-km"); rt<Gram, Milligram>(v, "g-mg"); rt<Day, SiderealDay>(v, "day-sidereal"); rt<Hour, Femtosecond>(v, "h-fs"); rt<Degree, Arcsecond>(v, "deg-arcsec"); rt<Arcminute, Radian>(v, "arcmin-rad"); rt<Arcsecond, Arcminute>(v, "arcsec-arcmin"); rt<SquareDegree, Steradian>(v, "sqdeg-sr"); rt<MilesPerHour, KilometersPerHour>(v, "mph-kph"); rt<KilometersPerSecond, MilesPerHour>(v, "kps-mph"); rt<DegreesPerSecond, RadiansPerSecond>(v, "dps-rps"); rt<Terahertz, Kilohertz>(v, "THz-kHz"); rt<ElectronVolt, Megajoule>(v, "eV-MJ"); rt<Milliwatt, Gigawatt>(v, "mW-GW"); rt<SquareMillimeter, SquareMeter>(v, "mm2-m2");
    vp_check_close(Celsius(Fahrenheit(Celsius(v))).value(), v, 1e-4, "Celsius through Fahrenheit");
    vp_cover("rt");
}
ENTRY algebra() {
    double a = vp_in("a", -1e3, 1e3), b = vp_in("b", -1e3, 1e3), k = vp_in("k", -1e3, 1e3);
    rel((Meter(a) + Meter(b)).to_si(), a + b, "addition"); rel((Meter(a) - Meter(b)).to_si(), a - b, "subtraction"); rel((-Foot(a)).to_si(), -a * 0.3048, "negation"); rel((Hour(a) * k).to_si(), a * k * 3600, "scaling"); rel((k * Hour(a)).to_si(), a * k * 3600, "scaling from the left");
    Kilometer c(a); c += Kilometer(b); rel(c.to_si(), (a + b) * 1000, "in-place addition"); c -= Kilometer(b); rel(c.to_si(), a * 1000, "in-place subtraction"); c *= k; rel(c.to_si(), a * k * 1000, "in-place scaling");
    vp_assume(k > 0.01); c /= k; rel(c.to_si(), a * 1000, "in-place division"); rel((Watt(a) / k).to_si() * k, a, "division by a scalar");
    rel((Kilometer(a) * Hour(b)).to_si(), a * 1000 * b * 3600, "product of quantities has the product of the SI values"); rel((Kilometer(a) / Hour(k)).to_si() * k * 3600, a * 1000, "quotient of quantities has the quotient of the SI values");
    rel((Degree(a) / Hour(k)).to_si() * k * 3600, a * P / 180, "quotient with a tagged unit"); rel((Degree(a) * Degree(b)).to_si(), a * b * (P / 180) * (P / 180), "product of tagged units"); rel((Kilowatt(a) * ElectronVolt(b)).to_si(), a * b * 1000 * 1.602176634e-19, "product with a tagged unit"); rel((SquareMeter(a) * SquareDegree(b)).to_si(), a * b * (P / 180) * (P / 180), "product with a tagged unit on the right");
    rel((b / Kilometer(k)).to_si() * k * 1000, b, "reciprocal units"); rel((b / Degree(k)).to_si() * k * (P / 180), b, "reciprocal of a tagged unit"); rel((b / SiderealDay(k)).to_si() * k * 86164.0905, b, "reciprocal of a sidereal day");
    double ratio = Kilometer(a) / Meter(k); rel(ratio * k, a * 1000, "a ratio of lengths is the plain number"); double r2 = Degree(a) / Radian(k); rel(r2 * k, a * P / 180, "a ratio of angles is the plain number"); rel((Mile(a) / Foot(k)).to_si() * k, a * 5280, "a mile is 5280 feet");
    vp_cover("algebra");
}
ENTRY mixed() {
    double a = vp_in("a", -1e3, 1e3), b = vp_in("b", -1e3, 1e3);
    rel((Kilometer(a) + Mile(b)).to_si(), a * 1000 + b * 1609.344, "mixed-unit addition"); rel((Mile(a) - Foot(b)).to_si(), a * 1609.344 - b * 0.3048, "mixed-unit subtraction"); rel((Day(a) + SiderealDay(b)).to_si(), a * 86400 + b * 86164.0905, "mixed-tag addition"); rel((Degree(a) - Radian(b)).to_si(), a * P / 180 - b, "mixed-tag subtraction"); rel((Radian(a) + Arcsecond(b)).to_si(), a + b * P / 648000, "mixed-angle addition");
    Kilometer c(a); c += Meter(b); rel(c.to_si(), a * 1000 + b, "mixed in-place addition"); c -= Foot(b); rel(c.to_si(), a * 1000 + b - b * 0.3048, "mixed in-place subtraction"); vp_cover("mixed");
}
ENTRY order() {
    double a = vp_in("a", -1e6, 1e6), b = vp_in("b", -1e6, 1e6);
    vp_check((Meter(a) < Meter(b)) == (a < b), "less"); vp_check((Meter(a) <= Meter(b)) == (a <= b), "less or equal"); vp_check((Meter(a) > Meter(b)) == (a > b), "greater"); vp_check((Meter(a) >= Meter(b)) == (a >= b), "greater or equal"); vp_check((Meter(a) == Meter(b)) == (a == b), "equal"); vp_check((Meter(a) != Meter(b)) == (a != b), "not equal");
    double x = a * 1000; vp_assume(x - b > 1e-3 || b - x > 1e-3);
    vp_check((Kilometer(a) < Meter(b)) == (x < b), "mixed less"); vp_check((Kilometer(a) > Meter(b)) == (x > b), "mixed greater"); vp_check((Kilometer(a) <= Meter(b)) == (x <= b), "mixed less or equal"); vp_check((Kilometer(a) >= Meter(b)) == (x >= b), "mixed greater or equal"); vp_check(!(Kilometer(a) == Meter(b)), "mixed equal"); vp_check(Kilometer(a) != Meter(b), "mixed not equal"); vp_cover("order");
}
template <class D, class Q> constexpr bool same = std::is_same_v<typename Q::dimension_type, D>;
ENTRY dims() {
    double v = vp_in("v", 1, 2);
    vp_check(same<Velocity, decltype(Meter(v) / Second(v))>, "length over time is velocity"); vp_check(same<Power, decltype(Joule(v) / Second(v))>, "energy over time is power"); vp_check(same<Area, decltype(Foot(v) * Yard(v))>, "length squared is area"); vp_check(same<Radiance, decltype(Watt(v) / (SquareMeter(v) * SquareDegree(v)))>, "radiance"); vp_check(same<Irradiance, decltype(Watt(v) / SquareMeter(v))>, "irradiance"); vp_check(same<Force, decltype(Kilogram(v) * (Meter(v) / (Second(v) * Second(v))))>, "force"); vp_check(same<Frequency, decltype(1.0 / Hour(v))>, "frequency"); vp_check(same<Charge, decltype(Ampere(v) * Second(v))>, "charge"); vp_check(same<AngularVelocity, decltype(Degree(v) / Second(v))>, "angular rate"); vp_check(same<Dimensionless, decltype(Degree(v) / Radian(v))>, "dimensionless"); vp_check(same<ReciprocalLength, decltype(1.0 / Meter(v))>, "optical power");
    vp_check(!std::is_constructible_v<Meter, Second> && !std::is_constructible_v<Watt, Joule> && !std::is_constructible_v<Radian, Steradian> && !std::is_constructible_v<Hertz, RadiansPerSecond>, "quantities of different dimensions do not convert");
    vp_check(!std::is_convertible_v<double, Meter> && !std::is_convertible_v<Meter, double> && !std::is_convertible_v<Radian, double>, "plain numbers and dimensioned quantities do not mix implicitly"); vp_cover("dims");
}
ENTRY nan_values() {
    double x = vp_real_any("x"); bool isnan = x != x; vp_check(vp_throws([&] { Meter m(x); }) == isnan, "NaN quantities are rejected"); vp_check(vp_throws([&] { Degree m(x); }) == isnan, "NaN angles are rejected"); vp_check(vp_throws([&] { Celsius m(x); }) == isnan, "NaN temperatures are rejected");
    vp_cover("nan");
}
ENTRY literals() {
    using namespace huira::units::literals; (void)vp_bool("x");
    rel((2.5_Km).to_si(), 2500, "Km"); rel((3_m).to_si(), 3, "m"); rel((4.0_cm).to_si(), 0.04, "cm"); rel((4.0_mm).to_si(), 0.004, "mm"); rel((4.0_um).to_si(), 4e-6, "um"); rel((550_nm).to_si(), 550e-9, "nm"); rel((1_au).to_si(), 149597870700.0, "au"); rel((10_ft).to_si(), 3.048, "ft"); rel((10.0_yd).to_si(), 9.144, "yd"); rel((2_mi).to_si(), 3218.688, "mi"); rel((2.0_Kg).to_si(), 2, "Kg"); rel((2.0_g).to_si(), 0.002, "g"); rel((2_mg).to_si(), 2e-6, "mg"); rel((1.5_day).to_si(), 129600, "day"); rel((2_h).to_si(), 7200, "h"); rel((2.0_min).to_si(), 120, "min"); rel((7.0_s).to_si(), 7, "s"); rel((7.0_ms).to_si(), 7e-3, "ms"); rel((7_us).to_si(), 7e-6, "us"); rel((7.0_ns).to_si(), 7e-9, "ns"); rel((1.0_rad).to_si(), 1, "rad"); rel((90.0_deg).to_si(), P / 2, "deg"); rel((100_F).to_si(), (100 + 459.67) * 5 / 9, "F"); rel((2.0_KJ).to_si(), 2000, "KJ"); rel((2_eV).to_si(), 2 * 1.602176634e-19, "eV"); rel((2.0_cm2).to_si(), 2e-4, "cm2"); rel((2.0_mm2).to_si(), 2e-6, "mm2"); rel((2.0_mW).to_si(), 2e-3, "mW"); rel((2_KW).to_si(), 2000, "KW"); rel((2.0_MW).to_si(), 2e6, "MW"); rel((2.0_dpt).to_si(), 2, "dpt"); rel((2.0_mdpt).to_si(), 2e-3, "mdpt"); rel((2.0_Kmps).to_si(), 2000, "Kmps"); rel((2.0_Miph).to_si(), 0.89408, "Miph"); rel((36_Kmph).to_si(), 10, "Kmph"); rel((180.0_degps).to_si(), P, "degps"); rel((2.0_KHz).to_si(), 2e3, "KHz"); rel((2.0_MHz).to_si(), 2e6, "MHz"); rel((2_GHz).to_si(), 2e9, "GHz"); vp_cover("lit");
}
ENTRY spectral() {
    float r = vp_inf("r", 0, 1000), g = vp_inf("g", 0, 1000), b = vp_inf("b", 0, 1000); RGB v{r, g, b};
    SpectralKilowatts<RGB> kw(v); RGB si = kw.to_si(); SpectralWatts<RGB> w(kw); SpectralMilliwatts<RGB> mw(kw); auto back = mw.as<std::kilo>();
    for (int i = 0; i < 3; ++i) { vp_check_close(si[i], v[i] * 1000.0, 0.1, "spectral kilowatts in SI"); vp_check_close(w.value()[i], v[i] * 1000.0, 0.1, "spectral conversion keeps the power"); vp_check_close(double(mw.value()[i]) * 1e-6, v[i], 1e-3, "spectral down-conversion keeps the power"); vp_check_close(back.value()[i], v[i], 1e-3, "spectral conversion round-trips"); }
    vp_check(SpectralWatts<RGB>(v) == SpectralWatts<RGB>(v), "spectral equality"); vp_cover("spectral");
}
