// Stand-in for takatori/util/exception.h: throwing with a stack trace attached is reduced to throwing.
#pragma once
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <boost/exception/diagnostic_information.hpp>
#include <boost/stacktrace.hpp>
namespace takatori::util {
template <class T> [[noreturn]] void throw_exception(T&& e) { throw std::forward<T>(e); }
template <class T> [[nodiscard]] inline ::boost::stacktrace::stacktrace const* find_trace(T const&) noexcept { return nullptr; }
template <class T> inline void print_trace(std::ostream&, T const&) {}
}
