// The compiled simulator of /repo, as setup.py builds it, with a random source that can be scripted.
#include <deque>
#include <random>
static std::deque<double>& verif_draws(){ static std::deque<double> d; return d; }
extern "C" void verif_draw(double u){ verif_draws().push_back(u); }
#ifdef _OPENMP
#include <omp.h>
extern "C" void verif_threads(int n){ omp_set_num_threads(n); }
#endif
extern "C" void verif_clear(){ verif_draws().clear(); }
namespace std {
template <> class uniform_real_distribution<double> {
    double a_, b_;
public:
    using result_type = double;
    explicit uniform_real_distribution(double a = 0., double b = 1.) : a_(a), b_(b) {}
    template <class G> double operator()(G& g){
        if (!verif_draws().empty()) { double u = verif_draws().front(); verif_draws().pop_front(); return u; }
        return a_ + (b_ - a_) * std::generate_canonical<double, 53>(g);
    }
};
}
#include "_cppsim.cpp"
