// Reference arithmetic on digit vectors, least significant digit first.
#pragma once
#include "vxlib.h"
typedef std::vector<uint8_t> D;
// canonical decimal text of a + b, compared on magnitudes (all terms non-negative)
inline bool isSum(const std::string& s, bool na, const D& ma, bool nb, const D& mb)
{
    size_t i = 0;
    bool neg = !s.empty() && s[0] == '-';
    if (neg) i = 1;
    if (i >= s.size()) return false;
    bool ok = !(s[i] == '0' && (s.size() > i + 1 || neg));
    D m;
    for (; i < s.size(); ++i) { uint8_t d = (uint8_t)(s[i] - '0'); ok = ok & (d < 10); m.insert(m.begin(), d); }
    // non-negative terms on both sides: l1 + l2 == r1 + r2
    D l, r;
    (neg ? r : l) = m;
    bool n[2] = {na, nb};
    const D* src[2] = {&ma, &mb};
    for (int k = 0; k < 2; ++k)
    {
        D& to = n[k] ? l : r;
        D o; uint8_t c = 0;
        for (size_t q = 0; q < to.size() || q < src[k]->size(); ++q)
        {
            uint8_t x = c;
            if (q < to.size()) x += to[q];
            if (q < src[k]->size()) x += (*src[k])[q];
            c = x >= 10;
            o.push_back((uint8_t)(x % 10));
        }
        o.push_back(c);
        to = o;
    }
    for (size_t q = 0; q < l.size() || q < r.size(); ++q) ok = ok & ((q < l.size() ? l[q] : 0) == (q < r.size() ? r[q] : 0));
    return ok;
}
// canonical decimal text of the digits and sign
inline bool isDigits(const std::string& s, bool neg, const D& m)
{
    size_t i = 0;
    bool n = !s.empty() && s[0] == '-';
    if (n) i = 1;
    if (i >= s.size()) return false;
    bool ok = !(s[i] == '0' && (s.size() > i + 1 || n)), zero = true;
    size_t k = s.size() - i;
    for (size_t q = 0; q < m.size() || q < k; ++q)
    {
        uint8_t x = q < k ? (uint8_t)(s[s.size() - 1 - q] - '0') : 0, y = q < m.size() ? m[q] : 0;
        ok = ok & (x == y);
        zero = zero & (y == 0);
    }
    return ok & (zero | (n == neg));
}
inline D times(const D& a, const D& b)
{
    std::vector<uint32_t> c(a.size() + b.size(), 0);
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += (uint32_t)a[i] * b[j];
    D r;
    uint32_t carry = 0;
    for (size_t i = 0; i < c.size(); ++i) { uint32_t x = c[i] + carry; r.push_back((uint8_t)(x % 10)); carry = x / 10; }
    return r;
}
inline D plus(const D& a, const D& b)
{
    D r;
    uint8_t c = 0;
    for (size_t i = 0; i < a.size() || i < b.size() || c; ++i)
    {
        if (i >= a.size() && i >= b.size()) { r.push_back(c); break; }
        uint8_t x = (uint8_t)(c + (i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0));
        r.push_back((uint8_t)(x % 10)); c = x / 10;
    }
    return r;
}
inline bool less(const D& a, const D& b)
{
    bool lt = false;
    for (size_t i = 0; i < a.size() || i < b.size(); ++i)
    {
        uint8_t x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0;
        lt = (x < y) | ((x == y) & lt);
    }
    return lt;
}
inline bool zero(const D& a) { bool z = true; for (uint8_t x : a) z = z & (x == 0); return z; }
inline D parse(const std::string& s, bool& neg) { D d; neg = !s.empty() && s[0] == '-'; for (size_t i = neg; i < s.size(); ++i) d.insert(d.begin(), (uint8_t)(s[i] - '0')); return d; }

