/* H01: HTTP and email messages parse the same however they are delivered */
#include "w_common.h"
#include <mstdlib/mstdlib_formats.h>

namespace rdr {
struct Rec { std::string k; std::string d; bool data; };                                 /* one callback; consecutive data callbacks are merged */
struct Hist {
    std::vector<Rec> v; size_t ncb = 0; long stop_at = -1; int stop_code = 0; bool stopped = false;
    void add(const std::string &k) { v.push_back({ k, "", false }); }
    void data(const std::string &k, const std::string &d) { if (!v.empty() && v.back().data && v.back().k == k) v.back().d += d; else v.push_back({ k, d, true }); }
};
struct Msg { std::string bytes; Hist want; bool email = false, closed_end = false, skip_start = false; std::string body; size_t hdr_len = 0; std::vector<size_t> cuts; bool simple_ok = false; std::string what; };
struct Result { int code = 0; Hist h; size_t used = 0; size_t fed = 0; bool empty_data = false; };
}
using namespace rdr;

static Hist *RH; static bool rd_empty;
static std::string rd_s(const char *s) { return s ? std::string("'") + s + "'" : "NULL"; }
static int rd_cb(bool email)
{
    SIM_CHECK(!RH->stopped, "callback-after-stop", "a callback was called after an earlier one asked to stop");
    if ((long)RH->ncb++ == RH->stop_at) { RH->stopped = true; return RH->stop_code; }
    return email ? (int)M_EMAIL_ERROR_SUCCESS : (int)M_HTTP_ERROR_SUCCESS;
}
static int rd_ev(const std::string &k, bool email) { RH->add(k); return rd_cb(email); }
static int rd_data(const std::string &k, const void *d, size_t n, bool email) { if (n == 0) rd_empty = true; RH->data(k, std::string((const char *)d, n)); return rd_cb(email); }
#define HE(x) ((M_http_error_t)(x))
#define IX(i) std::to_string(i)
static M_http_error_t h_start(M_http_message_type_t t, M_http_version_t v, M_http_method_t m, const char *uri, M_uint32 code, const char *reason, void *) { return HE(rd_ev("start " + IX(t) + " " + IX(v) + " " + IX(m) + " " + rd_s(uri) + " " + IX(code) + " " + rd_s(reason), false)); }
static M_http_error_t h_hf(const char *k, const char *v, void *) { return HE(rd_ev("full " + rd_s(k) + rd_s(v), false)); }
static M_http_error_t h_h(const char *k, const char *v, void *) { return HE(rd_ev("hdr " + rd_s(k) + rd_s(v), false)); }
static M_http_error_t h_hd(M_http_data_format_t f, void *) { return HE(rd_ev("hdrdone " + IX(f), false)); }
static M_http_error_t h_b(const unsigned char *d, size_t n, void *) { return HE(rd_data("body", d, n, false)); }
static M_http_error_t h_bd(void *) { return HE(rd_ev("bodydone", false)); }
static M_http_error_t h_ce(const char *k, const char *v, size_t i, void *) { return HE(rd_ev("ext " + rd_s(k) + rd_s(v) + IX(i), false)); }
static M_http_error_t h_ced(size_t i, void *) { return HE(rd_ev("extdone " + IX(i), false)); }
static M_http_error_t h_c(const unsigned char *d, size_t n, size_t i, void *) { return HE(rd_data("chunk " + IX(i), d, n, false)); }
static M_http_error_t h_cd(size_t i, void *) { return HE(rd_ev("chunkdone " + IX(i), false)); }
static M_http_error_t h_cf(void *) { return HE(rd_ev("chunksdone", false)); }
static M_http_error_t h_pre(const unsigned char *d, size_t n, void *) { return HE(rd_data("preamble", d, n, false)); }
static M_http_error_t h_pred(void *) { return HE(rd_ev("preambledone", false)); }
static M_http_error_t h_mhf(const char *k, const char *v, size_t i, void *) { return HE(rd_ev("mfull " + rd_s(k) + rd_s(v) + IX(i), false)); }
static M_http_error_t h_mh(const char *k, const char *v, size_t i, void *) { return HE(rd_ev("mhdr " + rd_s(k) + rd_s(v) + IX(i), false)); }
static M_http_error_t h_mhd(size_t i, void *) { return HE(rd_ev("mhdrdone " + IX(i), false)); }
static M_http_error_t h_md(const unsigned char *d, size_t n, size_t i, void *) { return HE(rd_data("mdata " + IX(i), d, n, false)); }
static M_http_error_t h_mdd(size_t i, void *) { return HE(rd_ev("mdatadone " + IX(i), false)); }
static M_http_error_t h_mdf(void *) { return HE(rd_ev("mdatafinished", false)); }
static M_http_error_t h_epi(const unsigned char *d, size_t n, void *) { return HE(rd_data("epilogue", d, n, false)); }
static M_http_error_t h_epid(void *) { return HE(rd_ev("epiloguedone", false)); }
static M_http_error_t h_tf(const char *k, const char *v, void *) { return HE(rd_ev("tfull " + rd_s(k) + rd_s(v), false)); }
static M_http_error_t h_t(const char *k, const char *v, void *) { return HE(rd_ev("trailer " + rd_s(k) + rd_s(v), false)); }
static M_http_error_t h_td(void *) { return HE(rd_ev("trailerdone", false)); }
#define EE(x) ((M_email_error_t)(x))
static std::string rd_addr(const char *w, const char *g, const char *n, const char *a) { return std::string(w) + rd_s(g) + rd_s(n) + rd_s(a); }
static M_email_error_t e_h(const char *k, const char *v, void *) { return EE(rd_ev("hdr " + rd_s(k) + rd_s(v), true)); }
static M_email_error_t e_to(const char *g, const char *n, const char *a, void *) { return EE(rd_ev(rd_addr("To", g, n, a), true)); }
static M_email_error_t e_from(const char *g, const char *n, const char *a, void *) { return EE(rd_ev(rd_addr("From", g, n, a), true)); }
static M_email_error_t e_cc(const char *g, const char *n, const char *a, void *) { return EE(rd_ev(rd_addr("CC", g, n, a), true)); }
static M_email_error_t e_bcc(const char *g, const char *n, const char *a, void *) { return EE(rd_ev(rd_addr("BCC", g, n, a), true)); }
static M_email_error_t e_rt(const char *g, const char *n, const char *a, void *) { return EE(rd_ev(rd_addr("Reply-To", g, n, a), true)); }
static M_email_error_t e_subj(const char *s, void *) { return EE(rd_ev("subject " + rd_s(s), true)); }
static M_email_error_t e_hd(M_email_data_format_t f, void *) { return EE(rd_ev("hdrdone " + IX(f), true)); }
static M_email_error_t e_b(const char *d, size_t n, void *) { return EE(rd_data("body", d, n, true)); }
static M_email_error_t e_pre(const char *d, size_t n, void *) { return EE(rd_data("preamble", d, n, true)); }
static M_email_error_t e_pred(void *) { return EE(rd_ev("preambledone", true)); }
static M_email_error_t e_mh(const char *k, const char *v, size_t i, void *) { return EE(rd_ev("mhdr " + rd_s(k) + rd_s(v) + IX(i), true)); }
static M_email_error_t e_ma(const char *c, const char *t, const char *f, size_t i, void *) { return EE(rd_ev("attach " + rd_s(c) + rd_s(t) + rd_s(f) + IX(i), true)); }
static M_email_error_t e_mhd(size_t i, void *) { return EE(rd_ev("mhdrdone " + IX(i), true)); }
static M_email_error_t e_md(const char *d, size_t n, size_t i, void *) { return EE(rd_data("mdata " + IX(i), d, n, true)); }
static M_email_error_t e_mdd(size_t i, void *) { return EE(rd_ev("mdatadone " + IX(i), true)); }
static M_email_error_t e_mdf(void *) { return EE(rd_ev("mdatafinished", true)); }
static M_email_error_t e_epi(const char *d, size_t n, void *) { return EE(rd_data("epilogue", d, n, true)); }

/* a reader fed in pieces: what it did not take is offered again with more */
struct Feeder {
    bool email; M_http_reader_t *h = NULL; M_email_reader_t *e = NULL; std::string buf; Result r; bool over = false; size_t limit = 0;
    Feeder(bool em, bool skip) : email(em)
    {
        if (!em) {
            struct M_http_reader_callbacks c = { h_start, h_hf, h_h, h_hd, h_b, h_bd, h_ce, h_ced, h_c, h_cd, h_cf, h_pre, h_pred, h_mhf, h_mh, h_mhd, h_md, h_mdd, h_mdf, h_epi, h_epid, h_tf, h_t, h_td };
            h = M_http_reader_create(&c, skip ? M_HTTP_READER_SKIP_START : M_HTTP_READER_NONE, NULL);
        } else {
            struct M_email_reader_callbacks c = { e_h, e_to, e_from, e_cc, e_bcc, e_rt, e_subj, e_hd, e_b, e_pre, e_pred, e_mh, e_ma, e_mhd, e_md, e_mdd, e_mdf, e_epi };
            e = M_email_reader_create(&c, M_EMAIL_READER_NONE, NULL);
        }
        r.code = email ? (int)M_EMAIL_ERROR_MOREDATA : (int)M_HTTP_ERROR_MOREDATA;
    }
    ~Feeder() { M_http_reader_destroy(h); M_email_reader_destroy(e); }
    bool more(int c) const { return email ? (c == (int)M_EMAIL_ERROR_MOREDATA || c == (int)M_EMAIL_ERROR_SUCCESS) : (c == (int)M_HTTP_ERROR_MOREDATA || c == (int)M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE); }
    void feed(const char *d, size_t n)
    {
        if (over || !n) return;
        buf.append(d, n); r.fed += n;
        /* the reader gets memory that ends where the data ends */
        std::vector<char> exact(buf.begin(), buf.end());
        size_t len = 0; RH = &r.h; rd_empty = false;
        int c = email ? (int)M_email_reader_read(e, exact.data(), exact.size(), &len) : (int)M_http_reader_read(h, (const unsigned char *)exact.data(), exact.size(), &len);
        SIM_CHECK(len <= buf.size(), "len-read", "%zu bytes taken of %zu", len, buf.size());
        SIM_CHECK(!rd_empty, "empty-data", "a data callback was called without data");
        SIM_CHECK(!r.h.stopped || c == r.h.stop_code, "stop-code", "a callback returned %d, the read returned %d", r.h.stop_code, c);
        /* a code of our own must have come from us */
        if (!r.h.stopped) SIM_CHECK(c != (email ? (int)M_EMAIL_ERROR_USER_FAILURE : (int)M_HTTP_ERROR_USER_FAILURE), "stop-code", "failure of a callback reported, none failed");
        buf.erase(0, len); r.used += len; r.code = c;
        sim::ev("fed", (int)n, (int)len, c);
        if (!more(c)) over = true;
    }
};
static std::string rd_esc(const std::string &s, size_t max = 160) { std::string o; char t[8]; for (size_t i = 0; i < s.size() && o.size() < max; i++) { unsigned char c = (unsigned char)s[i]; if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(t, sizeof t, "\\x%02x", c); o += t; } else o += (char)c; } return o; }
static std::string rd_at(const Hist &h, size_t i) { if (i >= h.v.size()) return "<end>"; return h.v[i].k + (h.v[i].data ? " [" + std::to_string(h.v[i].d.size()) + "] " + rd_esc(h.v[i].d, 60) : ""); }
static size_t rd_diff(const Hist &a, const Hist &b) { size_t i = 0; while (i < a.v.size() && i < b.v.size() && a.v[i].k == b.v[i].k && a.v[i].data == b.v[i].data && a.v[i].d == b.v[i].d) i++; return i == a.v.size() && i == b.v.size() ? (size_t)-1 : i; }
/* what a holds is the beginning of what b holds */
static bool rd_prefix(const Hist &a, const Hist &b)
{
    for (size_t i = 0; i < a.v.size(); i++) {
        if (i >= b.v.size() || a.v[i].k != b.v[i].k || a.v[i].data != b.v[i].data) return false;
        if (a.v[i].d != b.v[i].d && !(i + 1 == a.v.size() && b.v[i].d.compare(0, a.v[i].d.size(), a.v[i].d) == 0)) return false;
    }
    return true;
}
/* an error may be seen before or after the data ahead of it was passed on */
static bool rd_similar(const Hist &a, const Hist &b)
{
    size_t i = 0; while (i < a.v.size() && i < b.v.size() && a.v[i].k == b.v[i].k && a.v[i].d == b.v[i].d) i++;
    if (i == a.v.size() && i == b.v.size()) return true;
    if (i == a.v.size()) return i + 1 == b.v.size() && b.v[i].data;
    if (i == b.v.size()) return i + 1 == a.v.size() && a.v[i].data;
    return i + 1 == a.v.size() && i + 1 == b.v.size() && a.v[i].data && b.v[i].data && a.v[i].k == b.v[i].k && (a.v[i].d.compare(0, b.v[i].d.size(), b.v[i].d) == 0 || b.v[i].d.compare(0, a.v[i].d.size(), a.v[i].d) == 0);
}

/* ---- generation ---- */
static std::string rd_tok(size_t max) { std::string s; size_t n = 1 + wl(max); for (size_t i = 0; i < n; i++) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[wl(62)]; return s; }
static std::string rd_text(size_t max) { std::string s = rd_tok(max); while (wl(3) == 0) s += " " + rd_tok(max); return s; }
/* data which likes to look like the syntax around it */
static std::string rd_blob(size_t max, const std::vector<std::string> &bnd)
{
    std::string s; size_t n = wl(max + 1);
    while (s.size() < n) switch (wl(10)) {
        case 0: s += "\r\n"; break;
        case 1: s += "\r"; break;
        case 2: s += "--"; break;
        case 3: s += "\n"; break;
        case 4: s += "-"; break;
        case 5: if (!bnd.empty()) { const std::string &b = bnd[wl(bnd.size())]; s += b.substr(0, wl(b.size())); if (wl(2)) s += "\r\n"; break; } /* fallthrough */
        case 6: s += std::string(1, (char)wl(256)); break;
        case 7: s += "\r\n\r\n"; break;
        default: s += rd_text(12); break;
    }
    /* a boundary must not be in there, nor may one come into being with what follows */
    for (bool again = true; again;) { again = false;
        for (auto &b : bnd) for (size_t p; (p = s.find(b)) != std::string::npos; again = true) s[p] = s[p] == '_' ? '=' : '_';
        for (auto &b : bnd) for (size_t k = std::min(b.size() - 1, s.size()); k > 0; k--) if (b.compare(0, k, s, s.size() - k, k) == 0) { std::string x = s.substr(s.size() - k) + "\r\n"; if (b.compare(0, std::min(b.size(), x.size()), x, 0, std::min(b.size(), x.size())) == 0) { s += "_"; again = true; break; } }
    }
    return s;
}
static size_t rd_size() { switch (wl(6)) { case 0: return 0; case 1: return 1; case 2: return 3; case 3: return 30; case 4: return 300; default: return 3000; } }
static std::string rd_boundary() { switch (wl(5)) { case 0: return "-"; case 1: return "--" + rd_tok(2); case 2: return rd_tok(1); case 3: return "----" + rd_tok(8) + "--" + rd_tok(3); default: return rd_tok(30); } }
static std::string rd_cased(const std::string &s) { std::string o = s; if (wl(3) == 0) for (auto &c : o) c = (char)(wl(2) ? toupper(c) : tolower(c)); return o; }

static void rd_http_headers(Msg &m, const char *fk, const char *hk, const std::string &suffix, size_t max)
{
    size_t n = wl(max + 1);
    for (size_t i = 0; i < n; i++) {
        std::string k = "X-" + rd_tok(8), line, ws = wl(3) ? " " : "";
        uint64_t c = wl(6);
        if (c == 0) { m.bytes += k + ":" + ws + "\r\n"; m.want.add(std::string(fk) + rd_s(k.c_str()) + "NULL" + suffix); m.want.add(std::string(hk) + rd_s(k.c_str()) + "NULL" + suffix); continue; }
        std::vector<std::string> vals; size_t nv = c == 1 ? 2 + wl(3) : 1;
        for (size_t j = 0; j < nv; j++) vals.push_back(rd_text(wl(8) ? 10 : 200));
        std::string v; for (size_t j = 0; j < nv; j++) v += (j ? (wl(2) ? ", " : ",") : "") + vals[j];
        m.bytes += k + ":" + ws + v + (wl(6) ? "" : "  ") + "\r\n";
        m.want.add(std::string(fk) + rd_s(k.c_str()) + rd_s(v.c_str()) + suffix);
        for (auto &x : vals) m.want.add(std::string(hk) + rd_s(k.c_str()) + rd_s(x.c_str()) + suffix);
    }
}
static void rd_hdr(Msg &m, const std::string &k, const std::string &v) { std::string kk = rd_cased(k); m.bytes += kk + ": " + v + "\r\n"; m.want.add("full " + rd_s(kk.c_str()) + rd_s(v.c_str())); m.want.add("hdr " + rd_s(kk.c_str()) + rd_s(v.c_str())); }

static Msg rd_http(bool may_close)
{
    Msg m; bool resp = wl(2); M_http_version_t ver = wl(2) ? M_HTTP_VERSION_1_1 : M_HTTP_VERSION_1_0; std::string vs = ver == M_HTTP_VERSION_1_1 ? "HTTP/1.1" : "HTTP/1.0";
    bool nobody_method = false;
    m.skip_start = wl(8) == 0;
    if (wl(4) == 0) { static const char *ws[] = { "\r\n", "\n", " ", "\r\n\r\n", "\t\r\n" }; m.bytes += ws[wl(5)]; }
    if (m.skip_start) { resp = true; }
    else if (resp) {
        unsigned code = 200 + (unsigned)wl(400); std::string reason = wl(4) ? rd_text(10) : "";
        m.bytes += vs + " " + IX(code) + " " + reason + "\r\n";
        m.want.add("start " + IX(M_HTTP_MESSAGE_TYPE_RESPONSE) + " " + IX(ver) + " " + IX(M_HTTP_METHOD_UNKNOWN) + " NULL " + IX(code) + " " + (reason.empty() ? "NULL" : rd_s(reason.c_str())));
    } else {
        static const struct { const char *s; M_http_method_t m; bool nb; } me[] = { { "GET", M_HTTP_METHOD_GET, true }, { "POST", M_HTTP_METHOD_POST, false }, { "PUT", M_HTTP_METHOD_PUT, false }, { "DELETE", M_HTTP_METHOD_DELETE, true }, { "HEAD", M_HTTP_METHOD_HEAD, true }, { "PATCH", M_HTTP_METHOD_PATCH, false } };
        auto &x = me[wl(6)]; std::string uri = "/" + rd_tok(wl(8) ? 20 : 2000); if (wl(2)) uri += "?" + rd_tok(4) + "=" + rd_tok(9);
        nobody_method = x.nb;
        m.bytes += std::string(x.s) + " " + uri + " " + vs + "\r\n";
        m.want.add("start " + IX(M_HTTP_MESSAGE_TYPE_REQUEST) + " " + IX(ver) + " " + IX(x.m) + " " + rd_s(uri.c_str()) + " 0 NULL");
    }
    rd_http_headers(m, "full ", "hdr ", "", 3);
    if (m.skip_start && m.want.v.empty()) rd_hdr(m, "X-First", "1");
    uint64_t kind = wl(4);
    /* a message without a start line counts as neither, and is treated as ended by the connection */
    if (kind == 0) {                                        /* body with a length, or none */
        bool withlen = wl(4) != 0;
        if (!withlen && (resp || m.skip_start)) { if (!may_close) withlen = true; else m.closed_end = true; }
        std::string body = withlen || m.closed_end ? rd_blob(rd_size(), {}) : "";
        if (withlen) rd_hdr(m, "Content-Length", IX(body.size()));
        rd_http_headers(m, "full ", "hdr ", "", 2);
        m.bytes += "\r\n";
        bool none = (withlen && body.empty()) || (!withlen && !resp && nobody_method);
        m.want.add("hdrdone " + IX(none ? M_HTTP_DATA_FORMAT_NONE : M_HTTP_DATA_FORMAT_BODY));
        m.bytes += body; if (!body.empty()) m.want.data("body", body);
        if (!none && !m.closed_end) m.want.add("bodydone");
        m.body = body; m.simple_ok = !m.skip_start; m.what = "body";
    } else if (kind == 1 || kind == 2) {                    /* chunks */
        if (wl(4) == 0) { rd_hdr(m, "Content-Length", "17"); }
        rd_hdr(m, "Transfer-Encoding", "chunked");
        rd_http_headers(m, "full ", "hdr ", "", 2);
        m.bytes += "\r\n"; m.want.add("hdrdone " + IX(M_HTTP_DATA_FORMAT_CHUNKED));
        size_t n = wl(5); if (wl(20) == 0) n = 200 + wl(400);
        for (size_t i = 0; i <= n; i++) {
            std::string d = i == n ? "" : rd_blob(n > 10 ? 5 : rd_size(), {}); if (i < n && d.empty()) d = "x";
            char hx[24]; snprintf(hx, sizeof hx, wl(2) ? "%zx" : wl(2) ? "%zX" : "%06zx", d.size()); m.bytes += hx;
            if (wl(4) == 0) { size_t ne = 1 + wl(3); for (size_t j = 0; j < ne; j++) { std::string k = rd_tok(6), v = rd_tok(6); bool hv = wl(3); m.bytes += ";" + k + (hv ? "=" + v : ""); m.want.add("ext " + rd_s(k.c_str()) + (hv ? rd_s(v.c_str()) : "NULL") + IX(i)); } m.want.add("extdone " + IX(i)); }
            m.bytes += "\r\n" + d;
            if (i < n) { m.bytes += "\r\n"; m.want.data("chunk " + IX(i), d); m.want.add("chunkdone " + IX(i)); m.body += d; }
        }
        m.want.add("chunksdone");
        rd_http_headers(m, "tfull ", "trailer ", "", wl(2) ? 2 : 0);
        m.bytes += "\r\n"; m.want.add("trailerdone");
        m.simple_ok = !m.skip_start; m.what = "chunked";
    } else {                                                /* multipart */
        std::string b = rd_boundary(), bb = "--" + b; std::vector<std::string> bv = { bb };
        Msg p; std::string pre = wl(3) ? "" : rd_blob(rd_size(), bv);
        if (!pre.empty()) { p.bytes += pre; p.want.data("preamble", pre); }
        if (!pre.empty() || wl(2)) p.bytes += "\r\n";
        p.bytes += bb + "\r\n"; p.want.add("preambledone");
        size_t n = 1 + wl(4);
        for (size_t i = 0; i < n; i++) {
            rd_http_headers(p, "mfull ", "mhdr ", IX(i), 2);
            p.bytes += "\r\n"; p.want.add("mhdrdone " + IX(i));
            std::string d = rd_blob(rd_size(), bv); if (i + 1 == n && n == 1 && d.empty()) d = "d";
            p.bytes += d; if (!d.empty()) p.want.data("mdata " + IX(i), d);
            p.want.add("mdatadone " + IX(i));
            p.bytes += "\r\n" + bb + (i + 1 == n ? "--" : "\r\n");
        }
        p.want.add("mdatafinished");
        bool withlen = !resp || m.skip_start || !may_close || wl(2);
        bool epi = wl(2); std::string e = epi ? rd_blob(rd_size(), {}) : "";
        if (epi) { p.bytes += "\r\n" + e; if (!e.empty()) p.want.data("epilogue", e); }
        if (withlen) { p.want.add("epiloguedone"); } else m.closed_end = true;
        bool lf = wl(2);
        if (withlen && lf) rd_hdr(m, "Content-Length", IX(p.bytes.size()));
        rd_hdr(m, "Content-Type", "multipart/form-data; boundary=" + b);
        if (withlen && !lf) rd_hdr(m, "Content-Length", IX(p.bytes.size()));
        m.bytes += "\r\n"; m.want.add("hdrdone " + IX(M_HTTP_DATA_FORMAT_MULTIPART));
        m.bytes += p.bytes; for (auto &r : p.want.v) m.want.v.push_back(r); m.what = "multipart";
    }
    return m;
}

static std::string rd_fold(const std::string &v) { std::string o; for (char c : v) { if (c == ' ' && wl(5) == 0) o += wl(2) ? "\r\n " : "\r\n\t"; else o += c; } return o; }
static void rd_ehdr(Msg &m, const std::string &k, const std::string &v, const char *pfx = "hdr ", const std::string &suf = "") { m.bytes += k + ": " + rd_fold(v) + "\r\n"; m.want.add(pfx + rd_s(k.c_str()) + rd_s(v.c_str()) + suf); }
static std::string rd_mail() { return rd_tok(8) + "@" + rd_tok(6) + ".com"; }
static void rd_addrs(Msg &m, const char *name)
{
    std::string v; std::vector<std::string> want; size_t ng = 1 + wl(2);
    for (size_t g = 0; g < ng; g++) {
        std::string group; if (wl(4) == 0) group = rd_text(6);
        if (!v.empty()) v += "; ";
        size_t n = wl(4); if (group.empty() && !n) n = 1;
        if (!group.empty()) { v += group + ":"; if (wl(2)) v += " "; }
        std::string gs = group.empty() ? "NULL" : rd_s(group.c_str());
        if (!n) { want.push_back(std::string(name) + gs + "NULLNULL"); if (g + 1 == ng) v += ";"; continue; }
        for (size_t i = 0; i < n; i++) {
            std::string a = rd_mail(); if (i) v += ", ";
            switch (wl(3)) {
            case 0: v += a; want.push_back(std::string(name) + gs + "NULL" + rd_s(a.c_str())); break;
            case 1: { std::string nm = rd_text(6); v += nm + " <" + a + ">"; want.push_back(std::string(name) + gs + rd_s(nm.c_str()) + rd_s(a.c_str())); break; }
            default: { std::string nm = rd_tok(5) + ", " + rd_tok(5); v += "\"" + nm + "\" <" + a + ">"; want.push_back(std::string(name) + gs + rd_s(nm.c_str()) + rd_s(a.c_str())); break; }
            }
        }
    }
    rd_ehdr(m, name, v); for (auto &w : want) m.want.add(w);
}
static Msg rd_email()
{
    Msg m; m.email = true; m.closed_end = true;
    size_t n = 1 + wl(5);
    for (size_t i = 0; i < n; i++) switch (wl(8)) {
        case 0: rd_addrs(m, "To"); break; case 1: rd_addrs(m, "From"); break; case 2: rd_addrs(m, "CC"); break; case 3: rd_addrs(m, "BCC"); break; case 4: rd_addrs(m, "Reply-To"); break;
        case 5: { std::string s = rd_text(12); rd_ehdr(m, "Subject", s); m.want.add("subject " + rd_s(s.c_str())); break; }
        default: rd_ehdr(m, "X-" + rd_tok(8), rd_text(wl(5) ? 10 : 300)); break;
    }
    if (wl(3) == 0) {
        m.bytes += "\r\n"; m.want.add("hdrdone " + IX(M_EMAIL_DATA_FORMAT_BODY));
        std::string b = rd_blob(rd_size(), {}); if (b.empty()) b = "b"; m.bytes += b; m.want.data("body", b); m.what = "email body";
        return m;
    }
    std::string b = rd_boundary(), sb = rd_boundary(), bb = "--" + b, ss = "--" + sb; bool nested = wl(2);
    if (nested && ss == bb) nested = false;
    if (nested && (wl(3) == 0)) { sb = b + rd_tok(2); ss = "--" + sb; }                      /* one boundary starting with the other */
    /* content within the parts must hold neither; the two must also not be found within each other except as a prefix */
    if (nested && ss != bb && (ss.find(bb, 1) != std::string::npos || bb.find(ss) != std::string::npos)) nested = false;
    std::vector<std::string> bv = { bb }; if (nested) bv.push_back(ss);
    /* nor may the sub boundary be found where the text after the outer one makes it */
    bool q = wl(2);
    rd_ehdr(m, rd_cased("Content-Type"), std::string("multipart/mixed; boundary=") + (q ? "\"" + b + "\"" : b));
    if (wl(3) == 0) rd_ehdr(m, "X-Last", rd_text(5));
    m.bytes += "\r\n"; m.want.add("hdrdone " + IX(M_EMAIL_DATA_FORMAT_MULTIPART));
    std::string pre = wl(3) ? "" : rd_blob(rd_size(), bv);
    if (!pre.empty()) { m.bytes += pre; m.want.data("preamble", pre); }
    if (!pre.empty() || wl(2)) m.bytes += "\r\n";
    m.bytes += bb + "\r\n"; m.want.add("preambledone");
    size_t idx = 0; size_t parts = 1 + wl(4);
    auto part = [&](const std::string &next) {
        std::string i = IX(idx), ct, te, fn; bool att = wl(3) == 0;
        size_t nh = wl(3); for (size_t k = 0; k < nh; k++) rd_ehdr(m, "X-" + rd_tok(5), rd_text(8), "mhdr ", i);
        if (wl(2) || att) { ct = "text/" + rd_tok(5); rd_ehdr(m, "Content-Type", ct, "mhdr ", i); }
        if (wl(2)) { te = "base64"; rd_ehdr(m, "Content-Transfer-Encoding", te, "mhdr ", i); }
        if (att) { fn = rd_tok(8); rd_ehdr(m, "Content-Disposition", "attachment; filename=\"" + fn + "\"", "mhdr ", i); }
        m.bytes += "\r\n";
        if (att) m.want.add("attach " + rd_s(ct.c_str()) + (te.empty() ? "NULL" : rd_s(te.c_str())) + rd_s(fn.c_str()) + i);
        m.want.add("mhdrdone " + i);
        std::string d = rd_blob(rd_size(), bv); m.bytes += d; if (!d.empty()) m.want.data("mdata " + i, d);
        m.want.add("mdatadone " + i); m.bytes += "\r\n" + next; idx++;
    };
    if (nested) {
        size_t sp = 1 + wl(3);
        rd_ehdr(m, "Content-Type", "multipart/alternative; boundary=\"" + sb + "\"", "mhdr ", "0"); m.bytes += "\r\n"; m.want.add("mhdrdone 0");
        std::string d = wl(2) ? "" : rd_blob(rd_size(), bv); m.bytes += d; if (!d.empty()) m.want.data("mdata 0", d);
        m.want.add("mdatadone 0"); idx = 1;
        if (!d.empty() || wl(2)) m.bytes += "\r\n";
        m.bytes += ss + "\r\n";
        for (size_t i = 0; i < sp; i++) part(i + 1 < sp ? ss + "\r\n" : ss + "--\r\n");
        m.bytes += rd_blob(wl(3) ? 0 : rd_size(), bv) + "\r\n" + bb;
        parts--; m.bytes += parts ? "\r\n" : "--"; m.what = "email nested";
    } else m.what = "email multipart";
    for (size_t i = 0; i < parts; i++) part(bb + (i + 1 < parts ? "\r\n" : "--"));
    m.want.add("mdatafinished");
    if (wl(2)) m.bytes += "\r\n";
    if (m.bytes.compare(m.bytes.size() - 2, 2, "\r\n") == 0 && wl(2)) { std::string e = rd_blob(rd_size(), {}); if (!e.empty()) { m.bytes += e; m.want.data("epilogue", e); } }
    return m;
}

/* how the network cuts the stream */
static std::vector<size_t> rd_cuts(size_t n)
{
    std::vector<size_t> c; uint64_t mode = choose(SCHED, 5); size_t pos = 0;
    size_t avg = mode == 0 ? 1 : mode == 1 ? 4 : mode == 2 ? 40 : mode == 3 ? 1500 : n;
    if (n > 2500 && avg < 40) avg = 40; if (n > 20000) avg = n;
    if (mode == 4 && n) { c.push_back((size_t)choose(SCHED, n + 1)); if (c[0] < n && choose(SCHED, 2)) { size_t x = c[0] + (size_t)choose(SCHED, std::min<size_t>(5, n - c[0]) + 1); c.push_back(x - c[0]); } return c; }
    while (pos < n) { size_t k = avg == 1 ? 1 : 1 + (size_t)choose(SCHED, 2 * avg); if (k > n - pos) k = n - pos; c.push_back(k); pos += k; }
    return c;
}
static bool rd_success(const Msg &m, int c) { return m.email ? c == (int)M_EMAIL_ERROR_SUCCESS : m.closed_end ? c == (int)M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE : c == (int)M_HTTP_ERROR_SUCCESS; }

static void rd_simple(const Msg &m, const std::string &after)
{
    /* the simple reader starts over with everything received so far */
    std::string all = m.bytes + after; size_t end = m.bytes.size();
    for (int k = 0; k < 6; k++) {
        size_t n = k == 0 ? all.size() : k == 1 ? end : (size_t)choose(SCHED, all.size()) + 1;
        M_http_simple_read_t *s = NULL; size_t len = 0; std::vector<unsigned char> exact(all.begin(), all.begin() + (long)n);
        M_http_error_t r = M_http_simple_read(&s, exact.data(), n, M_HTTP_SIMPLE_READ_NODECODE_BODY, &len);
        if (n < end && !m.closed_end) { SIM_CHECK(r == M_HTTP_ERROR_MOREDATA && s == NULL, "simple-early", "%zu of %zu bytes of a %s message: %d", n, end, m.what.c_str(), (int)r); continue; }
        if (n < end) { SIM_CHECK(r == M_HTTP_ERROR_MOREDATA || r == M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE, "simple-early", "%zu of %zu bytes of a %s message: %d", n, end, m.what.c_str(), (int)r); M_http_simple_read_destroy(s); continue; }
        if (!m.closed_end) { SIM_CHECK(r == M_HTTP_ERROR_SUCCESS && s != NULL, "simple-result", "a complete %s message: %d", m.what.c_str(), (int)r); SIM_CHECK(len == end, "simple-len", "%zu bytes taken of a message of %zu", len, end); }
        else SIM_CHECK(r == M_HTTP_ERROR_SUCCESS_MORE_POSSIBLE && s != NULL, "simple-result", "a complete %s message: %d", m.what.c_str(), (int)r);
        size_t bl = 0; const unsigned char *b = M_http_simple_read_body(s, &bl); std::string got((const char *)(b ? b : (const unsigned char *)""), b ? bl : 0), wantb = m.body; if (m.closed_end) wantb += all.substr(end, n - end);
        SIM_CHECK(got == wantb, "simple-body", "%zu bytes of body, %zu were sent", got.size(), wantb.size());
        M_http_simple_read_destroy(s); probe("h01.simple");
    }
}

static void rd_valid()
{
    bool email = wl(3) == 0; size_t nm = email ? 1 : 1 + wl(3);
    std::vector<Msg> ms; std::string all; for (size_t i = 0; i < nm; i++) { ms.push_back(email ? rd_email() : rd_http(i + 1 == nm)); all += ms.back().bytes; if (ms.back().closed_end) break; }
    std::vector<size_t> cuts = rd_cuts(all.size()); size_t ci = 0, pos = 0, mi = 0; bool truncated = choose(FAULT, 4) == 0; size_t stop = truncated ? (size_t)choose(FAULT, all.size()) : all.size();
    long stop_at = -1; if (!truncated && wl(5) == 0) stop_at = (long)wl(30);
    int stop_code = email ? (wl(2) ? (int)M_EMAIL_ERROR_STOP : (int)M_EMAIL_ERROR_USER_FAILURE) : (wl(2) ? (int)M_HTTP_ERROR_STOP : (int)M_HTTP_ERROR_USER_FAILURE);
    if (truncated) probe("h01.truncated");
    for (auto &m : ms) logf("%s message of %zu bytes: %s", m.what.c_str(), m.bytes.size(), rd_esc(m.bytes, 2000).c_str());
    std::string carry; size_t base = 0;
    while (mi < ms.size()) {
        Msg &m = ms[mi]; Feeder f(m.email, m.skip_start); f.r.h.stop_at = stop_at; f.r.h.stop_code = stop_code;
        if (!carry.empty()) { std::string c = carry; carry.clear(); f.feed(c.data(), c.size()); }
        while (!f.over && pos < stop) {
            size_t k = ci < cuts.size() ? cuts[ci++] : all.size() - pos; if (pos + k > stop) k = stop - pos;
            f.feed(all.data() + pos, k); pos += k;
            /* nothing is reported before it is there */
            if (pos < base + m.bytes.size() && !m.closed_end) SIM_CHECK(f.over == false || f.r.h.stopped || f.r.used < m.bytes.size(), "early", "message %zu reported complete with %zu of %zu bytes", mi, pos - base, m.bytes.size());
        }
        if (f.r.h.stopped) { SIM_CHECK(rd_prefix(f.r.h, m.want), "stopped-history", "up to the stop the callbacks differ at %zu: %s instead of %s", rd_diff(f.r.h, m.want), rd_at(f.r.h, rd_diff(f.r.h, m.want)).c_str(), rd_at(m.want, rd_diff(f.r.h, m.want)).c_str()); probe("h01.stopped"); return; }
        bool complete = pos >= base + m.bytes.size();
        if (!complete) {
            SIM_CHECK(m.email || m.closed_end || f.r.code == (int)M_HTTP_ERROR_MOREDATA, "truncated", "%zu of %zu bytes of a %s message: result %d", pos - base, m.bytes.size(), m.what.c_str(), f.r.code);
            SIM_CHECK(f.more(f.r.code), "truncated", "%zu of %zu bytes of a %s message: result %d", pos - base, m.bytes.size(), m.what.c_str(), f.r.code);
            SIM_CHECK(rd_prefix(f.r.h, m.want), "truncated-history", "%s message: callbacks differ at %zu: %s instead of %s", m.what.c_str(), rd_diff(f.r.h, m.want), rd_at(f.r.h, rd_diff(f.r.h, m.want)).c_str(), rd_at(m.want, rd_diff(f.r.h, m.want)).c_str());
            return;
        }
        SIM_CHECK(rd_success(m, f.r.code), "result", "a complete %s message gave %d", m.what.c_str(), f.r.code);
        size_t d = rd_diff(f.r.h, m.want);
        SIM_CHECK(d == (size_t)-1, "history", "%s message: callback %zu is %s, should be %s", m.what.c_str(), d, rd_at(f.r.h, d).c_str(), rd_at(m.want, d).c_str());
        if (!m.closed_end) SIM_CHECK(f.r.used == m.bytes.size(), "length", "%s message: %zu of %zu bytes taken", m.what.c_str(), f.r.used, m.bytes.size());
        else if (m.email && f.buf.size()) SIM_CHECK(f.buf == "\r", "length", "email: %zu bytes not taken", f.buf.size());
        probe(("h01." + m.what).c_str());
        carry = f.buf; base += m.bytes.size(); mi++;
    }
    if (!email) for (auto &m : ms) if (m.simple_ok && wl(2) && m.bytes.size() < 20000) rd_simple(m, m.closed_end ? "" : wl(2) ? "" : rd_blob(20, {}));
    if (email && wl(2)) { M_email_t *e = NULL; size_t len = 0; std::vector<char> x(all.begin(), all.end()); M_email_error_t r = M_email_simple_read(&e, x.data(), x.size(), M_EMAIL_SIMPLE_READ_NONE, &len); SIM_CHECK(r == M_EMAIL_ERROR_SUCCESS && e, "email-simple", "simple read of a complete email: %d", (int)r); M_email_destroy(e); probe("h01.email_simple"); }
}

/* damaged messages: whatever the reader makes of them does not depend on how they arrive */
static void rd_damaged()
{
    bool email = wl(3) == 0; Msg m = email ? rd_email() : rd_http(true); std::string s = m.bytes;
    size_t n = 1 + choose(FAULT, 4);
    for (size_t i = 0; i < n && !s.empty(); i++) {
        size_t p = (size_t)choose(FAULT, s.size());
        switch (choose(FAULT, 7)) {
        case 0: s[p] = (char)choose(FAULT, 256); break;
        case 1: s.erase(p, 1 + (size_t)choose(FAULT, 4)); break;
        case 2: { static const char *x[] = { "\r\n", "--", "\r", "\n", ":", " ", ";", "=", "\r\n\r\n", "-", ",", "<", "\"" }; s.insert(p, x[choose(FAULT, 13)]); break; }
        case 3: { size_t l = (size_t)choose(FAULT, 30) + 1; s.insert(p, s.substr((size_t)choose(FAULT, s.size()), l)); break; }
        case 4: s.resize(p); break;
        case 5: { size_t q = s.find("\r\n", p); if (q != std::string::npos) s.erase(q, 1 + (size_t)choose(FAULT, 2)); break; }
        case 6: if (choose(FAULT, 8) == 0) s.insert(p, std::string(5000 + (size_t)choose(FAULT, 5000), 'z')); else s.insert(p, std::string((size_t)choose(FAULT, 40), (char)(choose(FAULT, 2) ? '0' : 'f'))); break;
        }
    }
    if (s.empty()) return;
    logf("damaged %s message of %zu bytes: %s", m.what.c_str(), s.size(), rd_esc(s, 3000).c_str());
    Feeder w(m.email, m.skip_start); w.feed(s.data(), s.size());
    Feeder f(m.email, m.skip_start); std::vector<size_t> cuts = rd_cuts(s.size()); size_t pos = 0; for (size_t i = 0; pos < s.size() && !f.over; i++) { size_t k = i < cuts.size() ? cuts[i] : s.size() - pos; f.feed(s.data() + pos, k); pos += k; }
    SIM_CHECK(w.r.code == f.r.code, "split-result", "%s: %d when delivered at once, %d in pieces", m.what.c_str(), w.r.code, f.r.code);
    bool pend = w.r.code == (m.email ? (int)M_EMAIL_ERROR_MOREDATA : (int)M_HTTP_ERROR_MOREDATA), err = (!w.more(w.r.code) && w.r.code != 0) || pend;
    size_t d = rd_diff(f.r.h, w.r.h);
    if (!err) SIM_CHECK(d == (size_t)-1, "split-history", "%s: callback %zu is %s in pieces and %s at once", m.what.c_str(), d, rd_at(f.r.h, d).c_str(), rd_at(w.r.h, d).c_str());
    else { SIM_CHECK(rd_similar(f.r.h, w.r.h), "split-history", "%s (error %d): callback %zu is %s in pieces and %s at once", m.what.c_str(), w.r.code, d, rd_at(f.r.h, d).c_str(), rd_at(w.r.h, d).c_str()); probe(pend ? "h01.damaged_pending" : "h01.damaged_refused"); }
    if (!err) { SIM_CHECK(w.r.used == f.r.used, "split-length", "%s: %zu bytes taken at once, %zu in pieces", m.what.c_str(), w.r.used, f.r.used); probe("h01.damaged_accepted"); }
}

static void rd_world()
{
    world_begin();
    int n = 12;
    for (int i = 0; i < n; i++) { if (wl(2)) rd_valid(); else rd_damaged(); point("next"); }
    RH = NULL;
    world_end();
}
SIM_WORLD(H01, rd_world, "HTTP reader, HTTP simple reader, email reader, email simple reader, parser, state machine", "network delivery (how the byte stream is cut, cut off or damaged)", 1);
