// P24: any call returns a result of the documented shape or reports an error; never crashes
#include "catalogue.h"

static void arguments(const ops::Op& op, Src& s, Ctx& c) {
    ops::Args a(s, true, 6);
    ops::Call call = op.make(a);
    LOG(c, op.name, ": ", a.log, a.broken ? "; broken: " + a.what : "", a.odd ? "; unusual values" : "");
    c.label(a.broken ? "inconsistent" : a.odd ? "unusual" : "plain");
    std::string err;
    ops::Out o;
    try { o = call.run(); }
    catch(const std::invalid_argument& e) { err = cat("invalid_argument: ", e.what()); }
    catch(const std::runtime_error& e) { err = cat("runtime_error: ", e.what()); }
    catch(const std::domain_error& e) { err = cat("domain_error: ", e.what()); }
    catch(const gridpp::not_implemented_exception& e) { err = "not implemented"; }
    catch(const std::exception& e) { REQUIRE(c, false, op.name, " reports neither an invalid argument, a domain nor a runtime error, but ", e.what()); }
    if(err != "") {
        c.label("refused");
        REQUIRE(c, a.broken || a.odd, op.name, " refuses valid arguments: ", err);
        if(a.broken) c.nontrivial();
        return;
    }
    REQUIRE(c, !a.broken, op.name, " accepts inconsistent arguments: ", a.what);
    REQUIRE(c, !o.ragged, op.name, " returns a ragged array");
    if(!call.want.empty()) {
        std::vector<int> w = call.want, d = o.dims;
        bool empty = false;
        for(int x : w) if(x == 0) empty = true;
        if(!empty) REQUIRE(c, w == d, op.name, " returns an array of shape ", str(d), " instead of ", str(w));
        else REQUIRE(c, o.v.empty() || a.odd, op.name, " returns values for an empty request");
    }
    if(o.v.size() > 0 && a.odd) c.nontrivial();
}

static bool registered = []() {
    for(const ops::Op& op : ops::all()) {
        std::string n = "arg_" + op.name;
        for(char& ch : n) if(!isalnum((unsigned char) ch)) ch = '_';
        pbt::registry().push_back(pbt::Sub{"P24", n, [&op](Src& s, Ctx& c) { arguments(op, s, c); }, 400, 20000, ""});
    }
    return true;
}();
