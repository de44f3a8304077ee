// Replaces libstdc++'s <bits/locale_facets.tcc> in the engine build: the
// numeric facets in the "C" locale, without the locale caches.  Everything
// else of the stream library is the real libstdc++ template code.
#ifndef _LOCALE_FACETS_TCC
#define _LOCALE_FACETS_TCC 1
extern "C" void sym_fmt_double(char* buf, size_t cap, double v, char conv, int prec);
extern "C" double sym_parse_double(const char* s, size_t* used, int* erange);
extern "C" void sym_unsupported(const char* msg);
extern "C" float sym_parse_float(const char* s, size_t* used, int* erange);
namespace std {
template<typename _Facet> struct __use_cache { const _Facet* operator()(const locale&) const { sym_unsupported("locale cache"); return nullptr; } };
inline bool __verify_grouping(const char*, size_t, const string&) throw() { return true; }

template<typename _CharT, typename _OutIter>
_OutIter vx_put_padded(_OutIter s, ios_base& io, _CharT fill, const char* b, size_t n)
{
    size_t w = io.width() > 0 ? (size_t)io.width() : 0;
    io.width(0);
    size_t pad = w > n ? w - n : 0;
    ios_base::fmtflags adj = io.flags() & ios_base::adjustfield;
    size_t i = 0;
    if (adj == ios_base::internal)
    {
        if (n && (b[0] == '-' || b[0] == '+')) { *s = _CharT(b[0]); ++s; i = 1; }
        for (size_t k = 0; k < pad; ++k) { *s = fill; ++s; }
    }
    else if (adj != ios_base::left)
        for (size_t k = 0; k < pad; ++k) { *s = fill; ++s; }
    for (; i < n; ++i) { *s = _CharT(b[i]); ++s; }
    if (adj == ios_base::left)
        for (size_t k = 0; k < pad; ++k) { *s = fill; ++s; }
    return s;
}

template<typename _CharT, typename _OutIter>
template<typename _ValueT>
_OutIter num_put<_CharT, _OutIter>::_M_insert_int(_OutIter s, ios_base& io, _CharT fill, _ValueT v) const
{
    char buf[48];
    size_t n = 0;
    ios_base::fmtflags fl = io.flags();
    ios_base::fmtflags bf = fl & ios_base::basefield;
    bool dec = bf != ios_base::oct && bf != ios_base::hex;
    unsigned long long u = (unsigned long long)v;
    if (sizeof(_ValueT) == 4) u &= 0xffffffffull;
    if (dec && v < 0) { buf[n++] = '-'; u = 0ull - (unsigned long long)v; }
    else if (dec && (fl & ios_base::showpos) && _ValueT(-1) < _ValueT(0)) buf[n++] = '+';
    if (!dec && (fl & ios_base::showbase) && v != 0)
    {
        buf[n++] = '0';
        if (bf == ios_base::hex) buf[n++] = (fl & ios_base::uppercase) ? 'X' : 'x';
    }
    unsigned base = dec ? 10 : bf == ios_base::oct ? 8 : 16;
    unsigned long long p = 1;
    int digits = 1;
    while (u / p >= base) { p *= base; ++digits; }
    for (int i = 0; i < digits; ++i)
    {
        unsigned d = (unsigned)((u / p) % base);
        buf[n++] = (char)(d < 10 ? '0' + d : ((fl & ios_base::uppercase) ? 'A' : 'a') + (d - 10));
        p /= base;
    }
    return vx_put_padded(s, io, fill, buf, n);
}

template<typename _CharT, typename _OutIter>
template<typename _ValueT>
_OutIter num_put<_CharT, _OutIter>::_M_insert_float(_OutIter s, ios_base& io, _CharT fill, char, _ValueT v) const
{
    char buf[420];
    size_t n = 0;
    ios_base::fmtflags fl = io.flags();
    ios_base::fmtflags ff = fl & ios_base::floatfield;
    bool fixedScientific = ff == (ios_base::fixed | ios_base::scientific);
    char conv = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? 'e' : fixedScientific ? 'a' : 'g';
    if (fl & ios_base::uppercase) conv = (char)(conv - 32);
    int prec = (int)io.precision();
    if (fl & ios_base::showpos) buf[n++] = '+';
    sym_fmt_double(buf + n, sizeof buf - 1, (double)v, conv, prec);
    if (n && buf[n] == '-') { for (size_t i = 0; buf[i]; ++i) buf[i] = buf[i + 1]; n = 0; }
    while (buf[n]) ++n;
    return vx_put_padded(s, io, fill, buf, n);
}

template<typename _CharT, typename _OutIter>
_OutIter num_put<_CharT, _OutIter>::do_put(_OutIter s, ios_base& io, _CharT fill, bool v) const
{
    if (!(io.flags() & ios_base::boolalpha)) return _M_insert_int(s, io, fill, (long)v);
    return v ? vx_put_padded(s, io, fill, "true", 4) : vx_put_padded(s, io, fill, "false", 5);
}
template<typename _CharT, typename _OutIter>
_OutIter num_put<_CharT, _OutIter>::do_put(_OutIter s, ios_base& io, _CharT fill, double v) const
{ return _M_insert_float(s, io, fill, char(), v); }
template<typename _CharT, typename _OutIter>
_OutIter num_put<_CharT, _OutIter>::do_put(_OutIter s, ios_base& io, _CharT fill, long double v) const
{ return _M_insert_float(s, io, fill, 'L', v); }
template<typename _CharT, typename _OutIter>
_OutIter num_put<_CharT, _OutIter>::do_put(_OutIter s, ios_base& io, _CharT fill, const void* v) const
{
    ios_base::fmtflags f = io.flags();
    io.flags((f & ~(ios_base::basefield | ios_base::uppercase)) | ios_base::hex | ios_base::showbase);
    s = _M_insert_int(s, io, fill, (unsigned long)v);
    io.flags(f);
    return s;
}

template<typename _CharT, typename _InIter>
template<typename _ValueT>
_InIter num_get<_CharT, _InIter>::_M_extract_int(_InIter beg, _InIter end, ios_base& io, ios_base::iostate& err, _ValueT& v) const
{
    ios_base::fmtflags bf = io.flags() & ios_base::basefield;
    unsigned base = bf == ios_base::oct ? 8 : bf == ios_base::hex ? 16 : bf == 0 ? 0 : 10;
    bool eof = beg == end, neg = false, any = false, over = false;
    if (!eof)
    {
        _CharT c = *beg;
        if (c == '-' || c == '+') { neg = c == '-'; eof = ++beg == end; }
    }
    if (base == 16 || base == 0)
    {
        if (!eof && *beg == '0')
        {
            any = true;
            if (base == 0) base = 8;
            eof = ++beg == end;
            if (!eof && (*beg == 'x' || *beg == 'X') && (bf == 0 || base == 16)) { base = 16; any = false; eof = ++beg == end; }
        }
        else if (base == 0) base = 10;
    }
    bool sgn = _ValueT(-1) < _ValueT(0);
    unsigned long long mx = sgn ? (1ull << (sizeof(_ValueT) * 8 - 1)) - (neg ? 0 : 1) : (~0ull >> (64 - sizeof(_ValueT) * 8));
    unsigned long long acc = 0;
    while (!eof)
    {
        _CharT c = *beg;
        unsigned dgt;
        if (c >= '0' && c <= '9') dgt = (unsigned)(c - '0');
        else if (base == 16 && c >= 'a' && c <= 'f') dgt = (unsigned)(c - 'a') + 10;
        else if (base == 16 && c >= 'A' && c <= 'F') dgt = (unsigned)(c - 'A') + 10;
        else break;
        if (dgt >= base) break;
        any = true;
        if (!over)
        {
            if (acc > mx / base) over = true;
            else { acc *= base; if (acc > mx - dgt) over = true; else acc += dgt; }
        }
        eof = ++beg == end;
    }
    err = ios_base::goodbit;
    if (!any) { v = 0; err = ios_base::failbit; }
    else if (over) { v = (neg && sgn) ? (_ValueT)(0ull - mx) : (_ValueT)(sgn ? mx : mx); err = ios_base::failbit; }
    else v = neg ? (_ValueT)(0ull - acc) : (_ValueT)acc;
    if (eof) err |= ios_base::eofbit;
    return beg;
}

template<typename _CharT, typename _InIter>
_InIter num_get<_CharT, _InIter>::_M_extract_float(_InIter beg, _InIter end, ios_base&, ios_base::iostate& err, string& xtrc) const
{
    bool eof = beg == end, dot = false, ex = false, man = false;
    if (!eof && (*beg == '-' || *beg == '+')) { xtrc += (char)*beg; eof = ++beg == end; }
    while (!eof)
    {
        _CharT c = *beg;
        if (c >= '0' && c <= '9') { xtrc += (char)c; if (!ex) man = true; }
        else if (c == '.' && !dot && !ex) { xtrc += '.'; dot = true; }
        else if ((c == 'e' || c == 'E') && !ex && man)
        {
            xtrc += 'e'; ex = true;
            eof = ++beg == end;
            if (!eof && (*beg == '-' || *beg == '+')) xtrc += (char)*beg; else continue;
        }
        else break;
        eof = ++beg == end;
    }
    if (eof) err |= ios_base::eofbit;
    return beg;
}
template<typename _CharT, typename _InIter>
_InIter num_get<_CharT, _InIter>::do_get(_InIter beg, _InIter end, ios_base& io, ios_base::iostate& err, bool& v) const
{
    if (!(io.flags() & ios_base::boolalpha))
    {
        long l = -1;
        beg = _M_extract_int(beg, end, io, err, l);
        if (l == 0 || l == 1) v = l != 0; else { v = true; err = ios_base::failbit | (err & ios_base::eofbit); }
        return beg;
    }
    sym_unsupported("boolalpha input");
    return beg;
}
#define VX_GETF(T, PARSE)                                                                                     \
    template<typename _CharT, typename _InIter>                                                               \
    _InIter num_get<_CharT, _InIter>::do_get(_InIter beg, _InIter end, ios_base& io, ios_base::iostate& err, T& v) const \
    {                                                                                                         \
        string x;                                                                                             \
        err = ios_base::goodbit;                                                                              \
        ios_base::iostate e = ios_base::goodbit;                                                              \
        beg = _M_extract_float(beg, end, io, e, x);                                                           \
        size_t used = 0; int er = 0;                                                                          \
        v = PARSE(x.c_str(), &used, &er);                                                                     \
        if (used != x.size() || x.empty()) { v = 0; e |= ios_base::failbit; }                                 \
        else if (er && (v > 1 || v < -1)) e |= ios_base::failbit;                                             \
        err = e;                                                                                              \
        return beg;                                                                                           \
    }
VX_GETF(float, sym_parse_float)
VX_GETF(double, sym_parse_double)
VX_GETF(long double, sym_parse_double)
template<typename _CharT, typename _InIter>
_InIter num_get<_CharT, _InIter>::do_get(_InIter beg, _InIter end, ios_base& io, ios_base::iostate& err, void*& v) const
{
    unsigned long u;
    ios_base::fmtflags f = io.flags();
    io.flags((f & ~ios_base::basefield) | ios_base::hex);
    beg = _M_extract_int(beg, end, io, err, u);
    io.flags(f);
    v = (void*)u;
    return beg;
}
template<typename _CharT>
_CharT* __add_grouping(_CharT* s, _CharT, const char*, size_t, const _CharT* first, const _CharT* last)
{ while (first != last) *s++ = *first++; return s; }
template<typename _CharT, typename _Traits>
void __pad<_CharT, _Traits>::_S_pad(ios_base& io, _CharT fill, _CharT* news, const _CharT* olds, streamsize newlen, streamsize oldlen)
{
    size_t p = (size_t)(newlen - oldlen);
    if ((io.flags() & ios_base::adjustfield) == ios_base::left)
    { _Traits::copy(news, olds, oldlen); _Traits::assign(news + oldlen, p, fill); }
    else { _Traits::assign(news, p, fill); _Traits::copy(news + p, olds, oldlen); }
}
}
#endif
