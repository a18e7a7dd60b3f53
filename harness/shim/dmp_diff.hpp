// A stand-in for the text difference library the text mapper names (not installed here).
// The mapper is only compiled; nothing in the checks computes differences.
#pragma once
#include <vector>
namespace ron {
enum class Operation { EQUAL, INSERT, DELETE };
}
template <class T>
struct MyersDiff {
    struct Range { typename T::const_iterator from, till; size_t size() const { return till - from; } };
    struct Diff { ron::Operation operation; Range text; };
    using Diffs = std::vector<Diff>;
    T a, b;
    MyersDiff(const T& x, const T& y) : a(x), b(y) {}
    Diffs diffs() { return {}; }
};
