// Reads "prec emax clamp round op a b" lines, prints result and status of the stand-in.
#include <decimal.hh>
#include <sstream>
using decimal::Decimal;
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        long prec, emax; int clamp, round; std::string op, a, b;
        in >> prec >> emax >> clamp >> round >> op >> a >> b;
        auto& c = decimal::context;
        c = decimal::Context{};
        c.prec(prec); c.emax(emax); c.emin(1 - emax); c.clamp(clamp); c.round(round);
        Decimal x{a}, y{b};
        c.clear_status();
        std::string r;
        if (op == "add") r = (x + y).to_sci();
        else if (op == "sub") r = (x - y).to_sci();
        else if (op == "mul") r = (x * y).to_sci();
        else if (op == "div") r = (x / y).to_sci();
        else if (op == "rem") r = (x % y).to_sci();
        else if (op == "neg") r = (-x).to_sci();
        else if (op == "reduce") r = x.reduce().to_sci();
        else if (op == "intx") r = x.to_integral_exact().to_sci();
        else if (op == "quant") r = x.rescale(y.i64()).to_sci();
        else if (op == "scaleb") r = x.scaleb(y).to_sci();
        else if (op == "cmp") r = std::to_string(x < y) + std::to_string(x == y) + std::to_string(x > y) + std::to_string(x <= y);
        else if (op == "sci") r = x.to_sci();
        else if (op == "adj") r = std::to_string(x.adjexp()) + "/" + std::to_string(x.exponent()) + "/" + std::to_string(x.get()->digits);
        std::cout << r << " " << std::hex << c.status() << std::dec << "\n";
    }
}
