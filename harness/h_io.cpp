#include "vxlib.h"
#include <iostream>
#include <sstream>
#include "Caitlyn/__Core/IO.h"
#include "Caitlyn/__Core/File.h"
using namespace Caitlyn;
#ifndef OPS
#define OPS 3
#endif
#ifndef LENS
#define LENS 1
#endif
#ifndef NMAX
#define NMAX 2
#endif
static const char* const kName = "vx_file.txt";
static std::string str(const String& s) { return s.str(); }

// ---------------------------------------------------------------- files
static std::string content()
{
    static char b[4096];
    long n = vx_file_get(kName, b, sizeof b);
    sym_check(n >= 0 && n <= (long)sizeof b, "the file is there");
    return std::string(b, (size_t)n);
}
// text of 0..n characters of one byte (LENS 1) or one or two bytes (LENS 3)
static std::string text(const char* name, unsigned n) { return vx::text(name, 0, n, LENS).bytes; }
struct Model { std::string data; bool exists; };
struct Handle { size_t pos; bool eof, open; };
struct Has1 { std::string v; std::string to_string() const { return v; } };
struct Has2 { std::string v; std::string str() const { return v; } };
struct Has3 { String v; String ToString() const { return v; } };
VX_HARNESS(file_history)
{
    Model m{"", true};
    if (vx::flip("there before")) { m.data = text("initial", NMAX); vx_file_set(kName, m.data.data(), m.data.size()); }
    {
        File f{String(kName)};
        Handle h{0, false, true};
        for (int i = 0; i < OPS; ++i)
        {
            switch (vx::pick("operation", 11))
            {
                case 0: { std::string t = text("byte", NMAX); f.Write(String(t)); m.data += t; h.eof = h.eof && h.open; h.open = true; break; }
                case 1: { std::string t = text("byte", 1); f.WriteLine(String(t)); m.data += t + "\n"; h.eof = h.eof && h.open; h.open = true; break; }
                case 2: { std::string t = text("byte", 1); f.Append(String(t)); m.data += t; h.eof = h.eof && h.open; h.open = true; break; }
                case 3: { std::string t = text("byte", 1); f.AppendLine(t.c_str()); m.data += t + "\n"; h.eof = h.eof && h.open; h.open = true; break; }
                case 4: { std::string r = str(f.Read()); sym_check(r == m.data, "reads back the whole content"); h.eof = h.eof && h.open; h.open = true; break; }
                case 5:
                {
                    char d = vx::flip("comma") ? ',' : '\n';
                    h.eof = h.eof && h.open; h.open = true;
                    std::string want;
                    if (!h.eof)
                    {
                        size_t k = h.pos;
                        if (k < m.data.size() && sym_decide((m.data[k] & 0xC0) == 0x80)) sym_end();   // inside a character
                        while (k < m.data.size() && !sym_decide(m.data[k] == d)) want += m.data[k++];
                        if (k < m.data.size()) h.pos = k + 1; else { h.pos = m.data.size(); h.eof = true; }
                    }
                    std::string got = str(d == '\n' ? f.ReadLine() : f.ReadLine(d));
                    sym_check(got == want, "reads the next line");
                    break;
                }
                case 6:
                {
                    size_t k = vx::pick("position", 4);
                    bool threw = false;
                    try { f.SetPosition((std::streamoff)k); } catch (const std::ios_base::failure&) { threw = true; }
                    sym_check(threw == !h.open, "positions an open file");
                    if (!threw) { h.pos = k; h.eof = false; }
                    break;
                }
                case 7: f.Erase(); m.data.clear(); h = Handle{0, false, true}; break;
                case 8: f.Close(); h.open = false; break;
                case 9: if (!h.open) { f.Open(); h.open = true; h.eof = false; } else { File g(f); std::string r = str(g.Read()); sym_check(r == m.data, "a second handle reads the same"); std::string t = text("byte", 1); g.Write(String(t)); m.data += t; } break;
                default:
                {
                    bool threw = false;
                    if (!h.open) sym_end();
                    try { f.SetPosition(-1); } catch (const std::ios_base::failure&) { threw = true; }
                    sym_check(threw, "a negative position is refused");
                }
            }
            sym_check(content() == m.data, "the file has exactly what was written");
            sym_check((size_t)(std::streamoff)f.GetPosition() == h.pos, "position");
            sym_check(f.IsEof() == h.eof && (bool)f == !h.eof, "end of file");
        }
        sym_cover("histories");
    }
    sym_check(content() == m.data, "the file keeps it when closed");
    for (char c : m.data) sym_out((uint8_t)c);
}
// every writing function writes its text, for Unicode text, objects with a text form and formats
VX_HARNESS(file_write)
{
    vx::Text t;
    for (unsigned k = vx::pick("characters", 3); k--;) { unsigned l = 1 + vx::pick("length", 4); t.add(vx::scalar("character", l), l); }
    std::string want, old;
    {
        File f = MakeFile("vx_file.txt");
        unsigned mode = vx::pick("mode", 4), kind = vx::pick("kind", 6);
        if (vx::flip("before")) { f.Write("ab"); old = "ab"; }
        std::string b = t.bytes;
        if (kind == 5) b = "<" + b + ">";
        want = old + b + (mode & 1 ? "\n" : "");
        String s(t.bytes);
#define VX_PUT(...) (mode == 0 ? f.Write(__VA_ARGS__) : mode == 1 ? f.WriteLine(__VA_ARGS__) : mode == 2 ? f.Append(__VA_ARGS__) : f.AppendLine(__VA_ARGS__))
        switch (kind)
        {
            case 0: VX_PUT(s); break;
            case 1: VX_PUT(t.bytes.c_str()); break;
            case 2: VX_PUT(Has1{t.bytes}); break;
            case 3: VX_PUT(Has2{t.bytes}); break;
            case 4: VX_PUT(Has3{s}); break;
            default: VX_PUT("<{}>", s); break;
        }
        sym_check(content() == want, "writes exactly the text");
        sym_check(str(f.Read()) == want, "reads it back");
        sym_check(str(f.ReadLine('\0')) == want && f.IsEof(), "reads it up to the end");
    }
    sym_check(content() == want, "and keeps it");
    sym_cover("written");
}
VX_HARNESS(file_open)
{
    bool threw = false;
    try { File f{String("")}; } catch (const std::ios_base::failure&) { threw = true; }
    sym_check(threw, "no name, no file");
    std::string n = "vx_file.txt";
    { File f("vx_{}.txt", String("file")); f.Write("x"); }
    sym_check(content() == "x", "a formatted name");
    { File f = "vx_file.txt"_file; f.Write("y"); }
    sym_check(content() == "xy", "a literal name");
    File f; threw = false;
    try { f.Write("z"); } catch (const std::ios_base::failure&) { threw = true; }
    sym_check(threw && content() == "xy", "no name, no write");
    sym_cover("opened");
}

// ---------------------------------------------------------------- long lines, many lines
#ifndef DEEP
#define DEEP 0
#endif
static std::string mixed(unsigned n)
{
    static const char* const c[] = {"a", "\xC3\xA9", "\xE4\xB8\x96", "\xF0\x9F\x99\x82", " ", "z"};
    std::string s;
    for (unsigned i = 0; i < n; ++i) s += c[i % 6];
    return s;
}
VX_HARNESS(file_long)
{
    static const unsigned lens[] = {0, 80, 300}, counts[] = {1, 12, 50};
    unsigned L = lens[vx::pick("line", DEEP ? 3 : 2)], N = counts[vx::pick("lines", DEEP ? 3 : 2)], l = 1 + vx::pick("bytes", 4);
    if (L * N > 1000) sym_end();
    // N lines, an arbitrary character in the middle of the middle one
    std::string ch, data;
    vx::put8(ch, vx::scalar("c", l), l);
    bool nl = l == 1 && sym_decide(ch[0] == '\n');
    std::vector<std::string> lines;
    for (unsigned i = 0; i < N; ++i)
    {
        std::string x = mixed(i % 3 == 2 ? 0 : L);
        if (i == N / 2) { if (nl) { lines.push_back(x); x = mixed(L); } else x += ch + mixed(L); }
        lines.push_back(x);
    }
    bool before = vx::flip("there before");
    unsigned how = vx::pick("written with", 3);
    for (size_t i = 0; i < lines.size(); ++i) data += lines[i] + (i + 1 < lines.size() ? "\n" : "");
    if (before) { vx_file_set(kName, data.data(), data.size()); }
    {
        File f{String(kName)};
        if (!before)
        {
            if (how == 0) f.Write(String(data));
            else for (size_t i = 0; i < lines.size(); ++i) { String s(lines[i]); if (i + 1 == lines.size()) f.Append(s); else if (how == 1) f.WriteLine(s); else f.AppendLine("{}", s); }
        }
        else if (how) sym_end();
        sym_check(content() == data, "the file has exactly what was written");
        sym_check(str(f.Read()) == data, "reads back the whole content");
        size_t at = 0;
        for (size_t i = 0; i < lines.size(); ++i)
        {
            sym_check(str(f.ReadLine()) == lines[i], "reads the next line");
            at += lines[i].size() + 1;
            if (i + 1 < lines.size()) sym_check((size_t)(std::streamoff)f.GetPosition() == at && !f.IsEof(), "and stops behind it");
            if (i == lines.size() / 2) { String more("more"); File g(f); g.AppendLine(more); data += "more\n"; if (i + 1 == lines.size()) break; lines.back() += "more"; }
        }
        sym_check(content() == data, "a second handle appends");
        f.SetPosition(0);
        std::string first = lines[0];
        if (lines.size() == 1) first = data.substr(0, data.size() - 1);
        sym_check(str(f.ReadLine()) == first, "from the start again");
        f.Erase();
        sym_check(content().empty() && str(f.Read()).empty(), "erased");
        f.Write(String(data));
        sym_check(content() == data && str(f.Read()) == data, "written again");
        sym_cover(before ? "there before" : "written");
    }
    sym_check(content() == data, "the file keeps it when closed");
}

// ---------------------------------------------------------------- console
struct Streams
{
    std::stringbuf in, out, err, log;
    std::streambuf *i, *o, *e, *l;
    explicit Streams(const std::string& input) : in(input, std::ios::in) { i = std::cin.rdbuf(&in); o = std::cout.rdbuf(&out); e = std::cerr.rdbuf(&err); l = std::clog.rdbuf(&log); std::cin.clear(); }
    ~Streams() { std::cin.rdbuf(i); std::cout.rdbuf(o); std::cerr.rdbuf(e); std::clog.rdbuf(l); }
};
template <class S>
static void put(bool line, unsigned kind, const String& s, const std::string& b)
{
    switch (kind)
    {
        case 0: line ? S::WriteLine(s) : S::Write(s); break;
        case 1: line ? S::WriteLine(Has1{b}) : S::Write(Has1{b}); break;
        case 2: line ? S::WriteLine(Has2{b}) : S::Write(Has2{b}); break;
        case 3: line ? S::WriteLine(Has3{s}) : S::Write(Has3{s}); break;
        case 4: line ? S::WriteLine("<{}>", s) : S::Write("<{}>", s); break;
        default: S::WriteLine(); break;
    }
}
VX_HARNESS(io_write)
{
    vx::Text t;
    for (unsigned k = vx::pick("characters", 3); k--;) { unsigned l = 1 + vx::pick("length", 4); t.add(vx::scalar("character", l), l); }
    Streams st("");
    String s(t.bytes);
    std::string want[3];
    for (int i = 0; i < 2; ++i)
    {
        unsigned to = vx::pick("stream", 3), kind = vx::pick("kind", 6);
        bool line = vx::flip("line");
        switch (to)
        {
            case 0: put<OutputStream>(line, kind, s, t.bytes); break;
            case 1: put<ErrorStream>(line, kind, s, t.bytes); break;
            default: put<LogStream>(line, kind, s, t.bytes); break;
        }
        want[to] += (kind == 4 ? "<" + t.bytes + ">" : kind == 5 ? std::string() : t.bytes) + (line || kind == 5 ? "\n" : "");
    }
    sym_check(st.out.str() == want[0] && st.err.str() == want[1] && st.log.str() == want[2], "exactly the text, on that stream");
    sym_cover("written");
}
VX_HARNESS(io_read)
{
    std::string in = text("input", NMAX + 1);
    Streams st(in);
    size_t pos = 0;
    std::string shown;
    for (int i = 0; i < 3; ++i)
    {
        std::string line;
        while (pos < in.size() && !sym_decide(in[pos] == '\n')) line += in[pos++];
        if (pos < in.size()) ++pos;
        unsigned op = vx::pick("operation", 5);
        switch (op)
        {
            case 0: sym_check(str(InputStream::ReadLine()) == line, "the next line"); break;
            case 1: sym_check(str(InputStream::ReadLine("in: ")) == line, "the next line"); shown += "in: "; break;
            case 2: { Char c = InputStream::ReadChar(); sym_check(c.str() == line.substr(0, 1), "the first character of the next line"); break; }
            case 3: { Char c = InputStream::ReadChar("c: "); sym_check(c.str() == line.substr(0, 1), "the first character of the next line"); shown += "c: "; break; }
            default: sym_check(str(InputStream::ReadLine("{}> ", String("q"))) == line, "the next line"); shown += "q> "; break;
        }
        if (line.empty()) sym_cover("empty line or end of input"); else sym_cover("line");
        sym_check(st.out.str() == shown, "shows the prompt");
    }
}
VX_HARNESS(io_read_unicode)
{
    vx::Text t;
    unsigned n = 1 + vx::pick("characters", 2);
    for (unsigned k = 0; k < n; ++k) { unsigned l = 1 + vx::pick("length", 4); t.add(vx::scalar("character", l), l); sym_assume(t.cp[k] != '\n'); }
    Streams st(t.bytes + "\n" + t.bytes);
    sym_check(str(InputStream::ReadLine()) == t.bytes, "the line");
    sym_check(InputStream::ReadChar().str() == t.ch(0), "the first character");
    sym_cover("read");
}

VX_HARNESS(io_long)
{
    static const unsigned lens[] = {0, 40, 400};
    unsigned L = lens[vx::pick("line", 3)], l = 1 + vx::pick("bytes", 4), to = vx::pick("stream", 3), kind = vx::pick("kind", 5);
    std::string ch;
    vx::put8(ch, vx::scalar("c", l), l);
    if (l == 1) sym_assume(ch[0] != '\n');
    std::string a = mixed(L) + ch + mixed(L), b = ch + mixed(3);
    Streams st(a + "\n\n" + b + "\n" + a);
    sym_check(str(InputStream::ReadLine()) == a, "the next line");
    sym_check(str(InputStream::ReadLine("{}", String(a))).empty(), "an empty line");
    sym_check(InputStream::ReadChar().str() == ch, "the first character of the next line");
    sym_check(str(InputStream::ReadLine()) == a, "the last line");
    sym_check(str(InputStream::ReadLine()).empty(), "nothing after it");
    std::string want[3];
    want[0] = a;
    for (int i = 0; i < 8; ++i)
    {
        bool line = i % 3 == 0;
        unsigned t = i == 5 ? (to + 1) % 3 : to;
        const std::string& x = i % 2 ? a : b;
        if (t == 0) put<OutputStream>(line, kind, String(x), x); else if (t == 1) put<ErrorStream>(line, kind, String(x), x); else put<LogStream>(line, kind, String(x), x);
        want[t] += (kind == 4 ? "<" + x + ">" : x) + (line ? "\n" : "");
    }
    sym_check(st.out.str() == want[0] && st.err.str() == want[1] && st.log.str() == want[2], "exactly the texts, on their streams");
    sym_cover("written");
}

// strings through standard streams
VX_HARNESS(io_string)
{
    std::string in = text("input", NMAX + 1), rest;
    std::istringstream is(in);
    std::ostringstream os;
    size_t pos = 0;
    String s("before");
    for (int i = 0; i < 3; ++i)
    {
        std::string line, was = str(s);
        bool any = is.good();
        while (pos < in.size() && !sym_decide(in[pos] == '\n')) line += in[pos++];
        if (pos < in.size()) ++pos;
        is >> s;
        sym_check(str(s) == (any ? line : was), "the next line, or nothing more");
        os << s;
        rest += str(s);
        if (any) sym_cover("line"); else sym_cover("at the end");
    }
    sym_check(os.str() == rest, "what was read is written");
}

// ---------------------------------------------------------------- every length and number of lines up to a bound
#ifndef SIZES
#define SIZES 70
#endif
VX_HARNESS(file_sizes)
{
    const unsigned n = vx::pick("size", SIZES + 1);
    const bool many = vx::flip("many lines");
    std::string x = many ? "" : mixed(n);
    const char c = (char)(0x20 + sym_below("c", 0x5F));
    x += c;
    const unsigned lines = many ? n : 2;
    std::string data;
    {
        File f{String(kName)};
        for (unsigned i = 0; i < lines; ++i)
        {
            if (i == 0) f.WriteLine(String(x)); else if (i % 2) f.AppendLine(String(x)); else f.AppendLine("{}", String(x));
            data += x + "\n";
        }
        sym_check(content() == data, "a file of any size has what was written");
        sym_check(str(f.Read()) == data, "and reads back");
        size_t k = 0, p;
        for (size_t at = 0; (p = data.find('\n', at)) != std::string::npos; at = p + 1, ++k) sym_check(str(f.ReadLine()) == data.substr(at, p - at), "line by line");
        sym_check(str(f.ReadLine()).empty(), "and no more");
        f.Append(String(x));
        sym_check(content() == data + x, "appended");
        f.Erase();
        sym_check(content().empty(), "erased");
        f.Write(String(x + data));
        sym_check(content() == x + data, "written again");
    }
    sym_check(content() == x + data, "kept when closed");
    sym_cover("written");
}
VX_HARNESS(io_sizes)
{
    const unsigned n = vx::pick("size", SIZES + 1);
    const char c = (char)(0x20 + sym_below("c", 0x5F));
    const std::string a = mixed(n) + c, b = c + mixed(n);
    std::string many;
    for (unsigned i = 0; i < n; ++i) many += i % 4 == 3 ? "\n" : b.substr(0, 1) + "\n";
    Streams st(a + "\n" + b + "\n" + many + a);
    sym_check(str(InputStream::ReadLine()) == a && str(InputStream::ReadLine()) == b, "lines of any size");
    bool ok = true;
    for (unsigned i = 0; i < n; ++i) ok = ok && str(InputStream::ReadLine()) == (i % 4 == 3 ? std::string() : b.substr(0, 1));
    sym_check(ok, "any number of lines");
    sym_check(str(InputStream::ReadLine()) == a && str(InputStream::ReadLine()).empty(), "the last line");
    OutputStream::Write(String(a)); ErrorStream::WriteLine(String(b)); LogStream::Write(String(a + b)); OutputStream::WriteLine("{}{}", String(b), String(a));
    sym_check(st.out.str() == a + b + a + "\n" && st.err.str() == b + "\n" && st.log.str() == a + b, "texts of any size, on their streams");
    sym_cover("written");
}
