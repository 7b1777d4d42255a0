// G01: the benchmark problems have the functions, points and labels they are documented to have.
#include <dcgp/gym.hpp>
typedef std::vector<double> dvec;
typedef std::vector<dvec> ddvec;
namespace gd = dcgp::gym::detail;
namespace gy = dcgp::gym;
static double sq(double x) { return x * x; }
static double cube(double x) { return x * x * x; }
static double p5(double x) { return x * x * x * x * x; }
static const double PI = 3.141592653589793238462643383279502884, E = 2.718281828459045235360287471352662498;
static double slt(double x) { return std::exp(-x) * cube(x) * std::cos(x) * std::sin(x) * (std::cos(x) * sq(std::sin(x)) - 1.); }
// the formulas, from the documentation and the papers it cites
static double formula(unsigned f, const dvec &x)
{
    switch (f) {
        case 0: return p5(x[0]) - 2. * cube(x[0]) + x[0];
        case 1: return p5(x[0]) - PI * cube(x[0]) + x[0];
        case 2: return p5(x[0]) - PI * cube(x[0]) + 2. * PI / x[0];
        case 3: return (E * p5(x[0]) + cube(x[0])) / (x[0] + 1.);
        case 4: return std::sin(PI * x[0]) + 1. / x[0];
        case 5: return E * p5(x[0]) - PI * cube(x[0]) + x[0];
        case 6: return (E * sq(x[0]) - 1.) / (PI * (x[0] + 2.));
        case 7: return std::cos(PI * x[0]) + std::sin(E * x[0]);
        case 8: return std::exp(-sq(x[0] - 1.)) / (1.2 + sq(x[1] - 2.5));
        case 9: return slt(x[0]);
        case 10: return slt(x[0]) * (x[1] - 5.);
        case 11: return 10. / (5. + (sq(x[0] - 3.) + sq(x[1] - 3.) + sq(x[2] - 3.) + sq(x[3] - 3.) + sq(x[4] - 3.)));
        case 12: return 30. * (x[0] - 1.) * (x[2] - 1.) / (sq(x[1]) * (x[0] - 10.));
        case 13: return 6. * std::cos(x[0] * std::sin(x[1]));
        case 14: return (x[0] - 3.) * (x[1] - 3.) + 2. * std::sin((x[0] - 4.) * (x[1] - 4.));
        default: return (sq(sq(x[0] - 3.)) + cube(x[1] - 3.) - (x[1] - 3.)) / (sq(sq(x[1] - 2.)) + 10.);
    }
}
typedef void (*gen_t)(ddvec &, ddvec &);
struct problem {
    const char *name;
    gd::multivar_func_ptr_t f;
    gen_t g;
    unsigned n, N;
    bool grid;
    double lb[5], ub[5];
};
static const problem problems[] = {
    {"koza_quintic", gd::koza_quintic, gy::generate_koza_quintic, 1, 10, true, {-3.}, {3.}},
    {"P1", gd::P1, gy::generate_P1, 1, 10, true, {1.}, {3.}},
    {"P2", gd::P2, gy::generate_P2, 1, 10, true, {0.1}, {5.}},
    {"P3", gd::P3, gy::generate_P3, 1, 10, true, {-0.9}, {1.}},
    {"P4", gd::P4, gy::generate_P4, 1, 10, true, {-1.}, {1.}},
    {"P5", gd::P5, gy::generate_P5, 1, 10, true, {1.}, {3.}},
    {"P6", gd::P6, gy::generate_P6, 1, 10, true, {-2.1}, {1.}},
    {"P7", gd::P7, gy::generate_P7, 1, 10, true, {-1.}, {1.}},
    {"kotanchek", gd::kotanchek, gy::generate_kotanchek, 2, 100, false, {0.3, 0.3}, {4., 4.}},
    {"salutowicz", gd::salutowicz, gy::generate_salutowicz, 1, 100, true, {0.05}, {10.}},
    {"salutowicz2d", gd::salutowicz2d, gy::generate_salutowicz2d, 2, 601, false, {0.05, 0.05}, {10., 10.}},
    {"uball5d", gd::uball5d, gy::generate_uball5d, 5, 1024, false, {0.05, 0.05, 0.05, 0.05, 0.05}, {6.05, 6.05, 6.05, 6.05, 6.05}},
    {"ratpol3d", gd::ratpol3d, gy::generate_ratpol3d, 3, 300, false, {0.05, 1., 0.05}, {2., 2., 2.}},
    {"sinecosine", gd::sinecosine, gy::generate_sinecosine, 2, 30, false, {0.1, 0.1}, {5.9, 5.9}},
    {"ripple", gd::ripple, gy::generate_ripple, 2, 300, false, {0.05, 0.05}, {6.05, 6.05}},
    {"ratpol2d", gd::ratpol2d, gy::generate_ratpol2d, 2, 50, false, {0.05, 0.05}, {6.05, 6.05}}};
struct dataset {
    gen_t g;
    unsigned N;
    const ddvec *points, *labels;
    int model;
    double b[8], rss;
};
// NIST's certified parameters and residual sums of squares
static const dataset sets[] = {
    {gy::generate_chwirut1, 214, &chwirut1_points, &chwirut1_labels, 1, {1.9027818370E-01, 6.1314004477E-03, 1.0530908399E-02}, 2.3844771393E+03},
    {gy::generate_chwirut2, 54, &chwirut2_points, &chwirut2_labels, 1, {1.6657666537E-01, 5.1653291286E-03, 1.2150007096E-02}, 5.1304802941E+02},
    {gy::generate_daniel_wood, 6, &daniel_wood_points, &daniel_wood_labels, 2, {7.6886226176E-01, 3.8604055871E+00}, 4.3173084083E-03},
    {gy::generate_gauss1, 250, &gauss1_points, &gauss1_labels, 3,
     {9.8778210871E+01, 1.0497276517E-02, 1.0048990633E+02, 6.7481111276E+01, 2.3129773360E+01, 7.1994503004E+01, 1.7899805021E+02, 1.8389389025E+01}, 1.3158222432E+03},
    {gy::generate_kirby2, 151, &kirby2_points, &kirby2_labels, 4, {1.6745063063E+00, -1.3927397867E-01, 2.5961181191E-03, -1.7241811870E-03, 2.1664802578E-05}, 3.9050739624E+00},
    {gy::generate_lanczos2, 24, &lanczos2_points, &lanczos2_labels, 5, {9.6251029939E-02, 1.0057332849E+00, 8.6424689056E-01, 3.0078283915E+00, 1.5529016879E+00, 5.0028798100E+00}, 2.2299428125E-11},
    {gy::generate_misra1b, 14, &misra1b_points, &misra1b_labels, 6, {3.3799746163E+02, 3.9039091287E-04}, 7.5464681533E-02},
    {gy::generate_luca1, 0, &luca1_points, &luca1_labels, 0, {}, 0.}};
static double nist(int model, const double *b, double x)
{
    switch (model) {
        case 1: return std::exp(-b[0] * x) / (b[1] + b[2] * x);
        case 2: return b[0] * std::pow(x, b[1]);
        case 3: return b[0] * std::exp(-b[1] * x) + b[2] * std::exp(-(x - b[3]) * (x - b[3]) / (b[4] * b[4])) + b[5] * std::exp(-(x - b[6]) * (x - b[6]) / (b[7] * b[7]));
        case 4: return (b[0] + b[1] * x + b[2] * x * x) / (1. + b[3] * x + b[4] * x * x);
        case 5: return b[0] * std::exp(-b[1] * x) + b[2] * std::exp(-b[3] * x) + b[4] * std::exp(-b[5] * x);
        default: return b[0] * (1. - 1. / sq(1. + b[1] * x / 2.));
    }
}
static double any_function(const dvec &x)
{
    sym_check(x.size() == 1u, "a one dimensional problem's function is given one number");
    return sym_uf(7u, x.data(), static_cast<uint32_t>(x.size()));
}
static void junk(ddvec &v)
{
    unsigned q = sym_param("junk", 1u), n = q == 1u ? sym_pick("previous content", 3u) : q; // 1: any of few, otherwise as many
    for (unsigned i = 0; i < n; ++i) v.push_back(dvec(2u, sym_f64("junk")));
}
static void grid(const ddvec &points, double lb, double ub, unsigned N)
{
    for (unsigned i = 0; i < N; ++i) {
        sym_check(points[i].size() == 1u, "points have the dimension of the problem");
        sym_check_real(points[i][0] * (N - 1.), lb * (N - 1.) + i * (ub - lb), "the points are equally spaced in the interval, bounds included");
    }
}
extern "C" void harness()
{
    unsigned mode = sym_param("mode", 0u), f = sym_param("f", 0u);
    ddvec points, labels;
    if (mode == 0u) { // the functions
        const auto &p = problems[f];
        dvec x;
        for (unsigned i = 0; i < p.n; ++i) {
            x.push_back(sym_f64("x"));
            sym_assume(x[i] >= -100. && x[i] <= 100.);
        }
        auto x0 = x;
        sym_check_real(p.f(x), formula(f, x0), "the function of a problem is the documented one");
    } else if (mode == 1u) { // the data of the problems
        const auto &p = problems[f];
        junk(points);
        junk(labels);
        sym_rng_mode = 3;
        p.g(points, labels);
        sym_check(points.size() == p.N && labels.size() == p.N, "a problem has as many points and labels as documented");
        if (p.grid)
            for (unsigned i = 0; i < p.N; ++i) sym_check(std::abs(points[i][0] - (p.lb[0] + i * (p.ub[0] - p.lb[0]) / (p.N - 1.))) <= 1e-9, "the points are equally spaced in the interval, bounds included");
        for (unsigned i = 0; i < p.N; ++i) {
            sym_check(points[i].size() == p.n && labels[i].size() == 1u, "points have the dimension of the problem, labels one");
            int in = 1;
            for (unsigned j = 0; j < p.n; ++j) in = in & (points[i][j] >= p.lb[j] - (p.grid ? 1e-9 : 0.)) & (points[i][j] <= p.ub[j] + (p.grid ? 1e-9 : 0.));
            sym_check(in, "the points lie in the documented box");
            sym_check_same(labels[i][0], p.f(points[i]), "the label of a point is the problem's function there");
        }
    } else if (mode == 2u) { // twice the same
        const auto &p = problems[f];
        sym_rng_mode = 3;
        p.g(points, labels);
        ddvec points2, labels2;
        p.g(points2, labels2);
        sym_check(points.size() == points2.size() && labels.size() == labels2.size(), "a problem's data are the same every time");
        for (unsigned i = 0; i < points.size(); ++i)
            for (unsigned j = 0; j < points[i].size(); ++j) sym_check_same(points[i][j], points2[i][j], "a problem's data are the same every time");
    } else if (mode == 3u) { // equally spaced data, any function
        double lb = sym_f64("lb"), ub = sym_f64("ub");
        sym_assume(lb >= -100. && lb <= ub && ub <= 100.);
        unsigned N = sym_concretize(sym_u32("N", 0u, sym_param("N", 12u)));
        junk(points);
        junk(labels);
        gd::generate_1Ddata(points, labels, any_function, lb, ub, N);
        sym_check(points.size() == N && labels.size() == N, "as many points as asked for");
        grid(points, lb, ub, N);
        if (N == 1u) sym_check_real(points[0][0], lb, "a single point is the lower bound");
        for (unsigned i = 0; i < N; ++i) {
            sym_check(labels[i].size() == 1u, "one label per point");
            sym_check_same(labels[i][0], any_function(points[i]), "the label of a point is the function's value there");
        }
    } else { // data sets
        const auto &d = sets[f];
        junk(points);
        junk(labels);
        auto p0 = *d.points, l0 = *d.labels;
        d.g(points, labels);
        sym_check(points == p0 && labels == l0 && *d.points == p0 && *d.labels == l0, "the data of a data set are its own");
        sym_check(points.size() == labels.size() && !points.empty(), "a data set has as many labels as points");
        double rss = 0.;
        for (unsigned i = 0; i < points.size(); ++i) {
            sym_check(points[i].size() == 1u && labels[i].size() == 1u, "points and labels of a data set have dimension one");
            if (d.model) {
                double y = nist(d.model, d.b, points[i][0]), t = labels[i][0];
                rss += sq(y - t);
            }
        }
        if (d.model) {
            sym_check(points.size() == d.N, "a data set has its number of observations");
            sym_check(std::abs(rss - d.rss) <= 1e-3 * d.rss, "the certified parameters of a data set leave the certified residuals");
        }
    }
    sym_reach("end");
}
