// Independent RFC 7252 / RFC 7959 codec used by the oracles and the scripted peers.
// Written from the RFCs; shares no code with FreeCoAP.
#pragma once
#include <cstdint>
#include <string>
#include <utility>
#include <vector>
#include <algorithm>
namespace ref {
typedef std::string Bytes;
enum { CON = 0, NON = 1, ACK = 2, RST = 3 };
enum Stat { OK, TOO_SHORT, OTHER_VERSION, MALFORMED };
struct Opt { unsigned num; Bytes val; bool operator==(const Opt &o) const { return num == o.num && val == o.val; } };
struct Msg {
    int ver = 1, type = 0, cls = 0, det = 0; unsigned mid = 0; Bytes token; std::vector<Opt> ops; Bytes payload;
    bool empty() const { return cls == 0 && det == 0; }
    bool request() const { return cls == 0 && det != 0; }
    bool response() const { return cls >= 2; }
    int code() const { return cls * 100 + det; }
    const Opt *find(unsigned n) const { for (auto &o : ops) if (o.num == n) return &o; return nullptr; }
    int count(unsigned n) const { int c = 0; for (auto &o : ops) c += o.num == n; return c; }
    std::string path() const { std::string r; for (auto &o : ops) if (o.num == 11) r += "/" + o.val; return r.empty() ? "/" : r; }
    void add(unsigned n, const Bytes &v) { size_t i = 0; while (i < ops.size() && ops[i].num <= n) i++; ops.insert(ops.begin() + i, Opt{n, v}); }
    std::string str() const { char b[96]; static const char *t[] = {"CON", "NON", "ACK", "RST"}; snprintf(b, sizeof b, "%s %d.%02d mid=%u tkl=%zu ops=%zu pl=%zu", t[type & 3], cls, det, mid, token.size(), ops.size(), payload.size()); return b; }
};
inline Stat parse(const Bytes &d, Msg &m) {
    m = Msg(); size_t n = d.size(), p = 4; auto u = [&](size_t i) { return (unsigned)(unsigned char)d[i]; };
    if (n < 4) return TOO_SHORT;
    m.ver = u(0) >> 6; m.type = (u(0) >> 4) & 3; unsigned tkl = u(0) & 15; m.cls = u(1) >> 5; m.det = u(1) & 31; m.mid = (u(2) << 8) | u(3);
    if (m.ver != 1) return OTHER_VERSION;
    if (tkl > 8) return MALFORMED;
    if (m.cls == 1 || m.cls == 3 || m.cls == 6 || m.cls == 7) return MALFORMED;
    if (n - p < tkl) return MALFORMED;
    m.token = d.substr(p, tkl); p += tkl; unsigned num = 0;
    while (p < n) {
        if (u(p) == 0xff) { p++; if (p == n) return MALFORMED; m.payload = d.substr(p); p = n; break; }
        unsigned dl = u(p) >> 4, ln = u(p) & 15; p++;
        if (dl == 15 || ln == 15) return MALFORMED;
        if (dl == 13) { if (n - p < 1) return MALFORMED; dl = 13 + u(p); p++; }
        else if (dl == 14) { if (n - p < 2) return MALFORMED; dl = 269 + ((u(p) << 8) | u(p + 1)); p += 2; }
        if (ln == 13) { if (n - p < 1) return MALFORMED; ln = 13 + u(p); p++; }
        else if (ln == 14) { if (n - p < 2) return MALFORMED; ln = 269 + ((u(p) << 8) | u(p + 1)); p += 2; }
        if (n - p < ln) return MALFORMED;
        num += dl; m.ops.push_back(Opt{num, d.substr(p, ln)}); p += ln;
    }
    if (m.empty()) { if (m.type == NON || !m.token.empty() || !m.ops.empty() || !m.payload.empty()) return MALFORMED; }
    else if (m.type == RST) return MALFORMED;
    return OK;
}
inline Bytes build(const Msg &m) {
    Bytes d; auto put = [&](unsigned v) { d.push_back((char)v); };
    put((m.ver << 6) | (m.type << 4) | (unsigned)m.token.size()); put((m.cls << 5) | m.det); put(m.mid >> 8); put(m.mid & 255); d += m.token;
    std::vector<Opt> o = m.ops; std::stable_sort(o.begin(), o.end(), [](const Opt &a, const Opt &b) { return a.num < b.num; });
    unsigned prev = 0;
    for (auto &x : o) {
        unsigned dl = x.num - prev, ln = (unsigned)x.val.size(); prev = x.num; auto nib = [](unsigned v) { return v >= 269 ? 14u : v >= 13 ? 13u : v; };
        put((nib(dl) << 4) | nib(ln));
        for (unsigned v : {dl, ln}) { if (v >= 269) { put((v - 269) >> 8); put((v - 269) & 255); } else if (v >= 13) put(v - 13); }
        d += x.val;
    }
    if (!m.payload.empty()) { put(0xff); d += m.payload; }
    return d;
}
inline bool recognised(unsigned n) { static const unsigned k[] = {1, 3, 4, 5, 7, 8, 11, 12, 14, 15, 17, 20, 23, 27, 28, 35, 39, 60}; for (unsigned x : k) if (x == n) return true; return false; }
inline unsigned bad_critical(const Msg &m) { for (auto &o : m.ops) if ((o.num & 1) && !recognised(o.num)) return o.num; return 0; }
// RFC 7959 block option value
struct Block { unsigned num = 0, more = 0, szx = 0; unsigned size() const { return 1u << (szx + 4); } };
inline bool get_block(const Bytes &v, Block &b) { if (v.size() > 3) return false; unsigned x = 0; for (unsigned char c : v) x = (x << 8) | c; b.num = x >> 4; b.more = (x >> 3) & 1; b.szx = x & 7; return b.szx != 7; }
inline bool get_block(const Msg &m, unsigned opt, Block &b) { const Opt *o = m.find(opt); return o && get_block(o->val, b); }
inline Bytes put_block(const Block &b, int minlen = 0) { unsigned x = (b.num << 4) | (b.more << 3) | b.szx; Bytes v; for (int i = 2; i >= 0; i--) { unsigned c = (x >> (8 * i)) & 255; if (c || !v.empty() || i < minlen) v.push_back((char)c); } return v; }
}
