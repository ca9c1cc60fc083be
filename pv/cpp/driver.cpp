// Runs the compiled simulator of /repo on exact numbers, one command per line of standard input.
#include "sym.hpp"
#define double Real
#include "_cppkernels/simulator.hpp"
#undef double

using C = std::complex<Real>;
using Array = std::vector<C, aligned_allocator<C,64>>;
using Matrix = std::vector<Array>;

template <class T> T get(std::istream& in){ T x; if (!(in >> x)) throw Unsupported("protocol"); return x; }
Real real(std::istream& in){
    auto s = get<std::string>(in);
    if (std::isdigit((unsigned char)s[0]) || (s[0] == '-' && s.size() > 1)){
        auto k = s.find('/');
        Real r(std::stoll(s));
        if (k != std::string::npos) r /= Real(std::stoll(s.substr(k + 1)));
        return r;
    }
    return Real::var(s);
}
C cplx(std::istream& in){ Real a = real(in); Real b = real(in); return {a, b}; }
std::vector<unsigned> ids(std::istream& in){
    std::vector<unsigned> v(get<unsigned>(in));
    for (auto& x : v) x = get<unsigned>(in);
    return v;
}
std::vector<bool> bits(std::istream& in){
    std::vector<bool> v(get<unsigned>(in));
    for (unsigned i = 0; i < v.size(); ++i) v[i] = get<int>(in);
    return v;
}
std::vector<std::vector<unsigned>> regs(std::istream& in){
    std::vector<std::vector<unsigned>> v(get<unsigned>(in));
    for (auto& x : v) x = ids(in);
    return v;
}
Simulator::Term term(std::istream& in){
    Simulator::Term t(get<unsigned>(in));
    for (auto& x : t) { x.first = get<unsigned>(in); x.second = get<char>(in); }
    return t;
}

void handle(Simulator& sim, std::string const& cmd, std::istream& in, std::ostream& out){
    if (cmd == "alloc") sim.allocate_qubit(get<unsigned>(in));
    else if (cmd == "dealloc") sim.deallocate_qubit(get<unsigned>(in));
    else if (cmd == "value") out << sim.get_classical_value(get<unsigned>(in));
    else if (cmd == "classical") out << sim.is_classical(get<unsigned>(in));
    else if (cmd == "run") sim.run();
    else if (cmd == "set"){
        auto order = ids(in);
        Simulator::StateVector w(get<unsigned>(in));
        for (auto& x : w) x = cplx(in);
        sim.set_wavefunction(w, order);
    }
    else if (cmd == "gate"){
        auto t = ids(in), c = ids(in);
        Matrix m(get<unsigned>(in));
        for (auto& row : m){ row.resize(m.size()); for (auto& x : row) x = cplx(in); }
        sim.apply_controlled_gate(m, t, c);
    }
    else if (cmd == "math"){
        auto r = regs(in); auto c = ids(in);
        sim.emulate_math([&](std::vector<int>& x){
            std::ostringstream q; q << "math";
            for (int v : x) q << ' ' << v;
            std::istringstream a(ask(q.str()));
            x.clear();
            for (int v; a >> v; ) x.push_back(v);
        }, r, c);
    }
    else if (cmd == "addc"){ auto a = get<long>(in); auto r = regs(in); auto c = ids(in); sim.emulate_math_addConstant(a, r, c); }
    else if (cmd == "addmod"){ auto a = get<long>(in); auto n = get<long>(in); auto r = regs(in); auto c = ids(in); sim.emulate_math_addConstantModN(a, n, r, c); }
    else if (cmd == "mulmod"){ auto a = get<long>(in); auto n = get<long>(in); auto r = regs(in); auto c = ids(in); sim.emulate_math_multiplyByConstantModN(a, n, r, c); }
    else if (cmd == "op"){
        Simulator::ComplexTermsDict td(get<unsigned>(in));
        for (auto& x : td) { x.first = term(in); x.second = cplx(in); }
        sim.apply_qubit_operator(td, ids(in));
    }
    else if (cmd == "exp"){
        Simulator::TermsDict td(get<unsigned>(in));
        for (auto& x : td) { x.first = term(in); x.second = real(in); }
        out << sim.get_expectation_value(td, ids(in)).show();
    }
    else if (cmd == "prob"){ auto b = bits(in); out << sim.get_probability(b, ids(in)).show(); }
    else if (cmd == "amp"){ auto b = bits(in); auto const& a = sim.get_amplitude(b, ids(in)); out << a.re.show() << ' ' << a.im.show(); }
    else if (cmd == "collapse"){ auto i = ids(in); sim.collapse_wavefunction(i, bits(in)); }
    else if (cmd == "measure"){
        auto i = ids(in);
        for (bool b : sim.measure_qubits_return(i)) out << b;
    }
    else if (cmd == "state"){
        auto c = sim.cheat();
        out << std::get<0>(c).size();
        for (auto const& p : std::get<0>(c)) out << ' ' << p.first << ' ' << p.second;
        out << ' ' << std::get<1>(c).size();
        for (auto const& x : std::get<1>(c)) out << ' ' << x.re.show() << ' ' << x.im.show();
    }
    else throw Unsupported("unknown command " + cmd);
}

int main(){
    std::ios::sync_with_stdio(false);
    auto sim = std::make_unique<Simulator>(1u);
    std::string line;
    while (std::getline(std::cin, line)){
        std::istringstream in(line);
        std::ostringstream out;
        std::string cmd; in >> cmd;
        try {
            if (cmd == "reset"){
                sim = std::make_unique<Simulator>(1u);
                Vars::all() = Vars();
            }
            else handle(*sim, cmd, in, out);
            std::cout << "ok " << out.str() << std::endl;
        }
        catch (Unsupported const& e){ std::cout << "unsupported " << e.what() << std::endl; }
        catch (std::length_error const& e){ std::cout << "ValueError " << e.what() << std::endl; }
        catch (std::invalid_argument const& e){ std::cout << "ValueError " << e.what() << std::endl; }
        catch (std::out_of_range const& e){ std::cout << "IndexError " << e.what() << std::endl; }
        catch (std::exception const& e){ std::cout << "RuntimeError " << e.what() << std::endl; }
    }
}
