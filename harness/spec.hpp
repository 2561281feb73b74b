// Reference semantics, written as ordinary C++ over the same data.  These functions are never executed: the analyser
// computes their normal forms and compares them with those of the repository's functions (see DESIGN.md).
// Name: spec::<property>::<anything>__<method>[__tag](Class& s, params...).
#pragma once
namespace spec {
void assume(bool);
void given(double value, double is);
template <class E>
void given(E value, typename std::enable_if<std::is_enum<E>::value, E>::type is);
}
