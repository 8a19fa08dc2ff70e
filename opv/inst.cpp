// Instantiates /repo's own templates so that clang's AST dump contains their bodies.
// No code of its own is verified from this file.
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "option/parameter_object.h"
#include "market_data/market_data.h"

namespace OptionPricer {
    void opv_instantiate(MarketData& m, const ParameterObject& p, const std::string& s, const double& a, const double& b,
                         const std::optional<double>& c, const double& d) {
        m.addStock(s, a, b, c);
        m.addStock(s, a, b, d);
        m.addStock(s, a, b);
        (void) p.getParameter<int>(s);
        (void) p.getParameter<double>(s);
        (void) p.getParameter<std::string>(s);
        (void) p.getParameter<BarrierDirection>(s);
        { EuropeanOptionFactory f; (void) f.createCallOption(p); (void) f.createPutOption(p); }
        { DigitalOptionFactory f; (void) f.createCallOption(p); (void) f.createPutOption(p); }
        { DoubleDigitalOptionFactory f; (void) f.createCallOption(p); (void) f.createPutOption(p); }
        { AmericanOptionFactory f; (void) f.createCallOption(p); (void) f.createPutOption(p); }
        { ArithmeticAsianOptionFactory f; (void) f.createCallOption(p); (void) f.createPutOption(p); }
        { GeometricAsianOptionFactory f; (void) f.createCallOption(p); (void) f.createPutOption(p); }
        { KnockInBarrierOptionFactory f; (void) f.createCallOption(p); (void) f.createPutOption(p); }
        { KnockOutBarrierOptionFactory f; (void) f.createCallOption(p); (void) f.createPutOption(p); }
        { FloatingStrikeLookbackOptionFactory f; (void) f.createCallOption(p); (void) f.createPutOption(p); }
        { FixedStrikeLookbackOptionFactory f; (void) f.createCallOption(p); (void) f.createPutOption(p); }
    }
}
