#pragma once
#include <cstdlib>
#include <takatori/scalar/binary.h>
#include <takatori/scalar/cast.h>
#include <takatori/scalar/coalesce.h>
#include <takatori/scalar/compare.h>
#include <takatori/scalar/conditional.h>
#include <takatori/scalar/extension.h>
#include <takatori/scalar/function_call.h>
#include <takatori/scalar/immediate.h>
#include <takatori/scalar/let.h>
#include <takatori/scalar/match.h>
#include <takatori/scalar/unary.h>
#include <takatori/scalar/variable_reference.h>
namespace takatori::scalar {
template <class F, class... A>
auto dispatch(F&& f, expression const& e, A&&... a) {
    switch (e.kind()) {
#define VERIF_CASE(x) case expression_kind::x: return f(static_cast<x const&>(e), std::forward<A>(a)...);
        VERIF_CASE(immediate)
        VERIF_CASE(variable_reference)
        VERIF_CASE(unary)
        VERIF_CASE(cast)
        VERIF_CASE(binary)
        VERIF_CASE(compare)
        VERIF_CASE(match)
        VERIF_CASE(conditional)
        VERIF_CASE(coalesce)
        VERIF_CASE(let)
        VERIF_CASE(function_call)
        VERIF_CASE(extension)
#undef VERIF_CASE
    }
    std::abort();
}
}
