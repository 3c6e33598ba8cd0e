#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
#include <openssl/evp.h>
#include <openssl/rsa.h>
#include <string>
#include <cstdio>
static EVP_PKEY *key() { return EVP_RSA_gen(2048); }
static std::string pem(X509 *x) { BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, x); char *p; long n = BIO_get_mem_data(b, &p); std::string s(p, n); BIO_free(b); return s; }
static std::string pem(EVP_PKEY *k) { BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, k, NULL, NULL, 0, NULL, NULL); char *p; long n = BIO_get_mem_data(b, &p); std::string s(p, n); BIO_free(b); return s; }
static std::string pem(X509_CRL *x) { BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_X509_CRL(b, x); char *p; long n = BIO_get_mem_data(b, &p); std::string s(p, n); BIO_free(b); return s; }
static long serial = 1000;
static X509 *mk(EVP_PKEY *k, const char *cn, const char *san, const char *from, const char *to, bool ca, X509 *issuer, EVP_PKEY *ik)
{
    X509 *x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), serial++);
    ASN1_TIME_set_string(X509_getm_notBefore(x), from); ASN1_TIME_set_string(X509_getm_notAfter(x), to);
    X509_NAME *n = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(n, "O", MBSTRING_ASC, (const unsigned char *)"mstdsim", -1, -1, 0);
    X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char *)cn, -1, -1, 0);
    X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : n); X509_set_pubkey(x, k);
    X509V3_CTX c; X509V3_set_ctx_nodb(&c); X509V3_set_ctx(&c, issuer ? issuer : x, x, NULL, NULL, 0);
    auto add = [&](int nid, const char *v) { X509_EXTENSION *e = X509V3_EXT_conf_nid(NULL, &c, nid, v); if (!e) { fprintf(stderr, "ext %s\n", v); exit(1); } X509_add_ext(x, e, -1); X509_EXTENSION_free(e); };
    add(NID_basic_constraints, ca ? "critical,CA:TRUE" : "CA:FALSE"); add(NID_subject_key_identifier, "hash"); if (ca) add(NID_key_usage, "critical,keyCertSign,cRLSign");
    if (san) add(NID_subject_alt_name, san);
    X509_sign(x, ik ? ik : k, EVP_sha256()); return x;
}
static void emit(const char *name, const std::string &s) { printf("static const char %s[] =\n", name); size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); printf("  \"%s\\n\"\n", s.substr(i, e - i).c_str()); i = e + 1; } printf("  ;\n"); }
int main()
{
    const char *F = "20190101000000Z", *T = "20450101000000Z";
    EVP_PKEY *cak = key(), *otk = key(), *imk = key(), *sk = key();
    X509 *ca = mk(cak, "Sim CA", NULL, F, T, true, NULL, NULL), *ot = mk(otk, "Other CA", NULL, F, T, true, NULL, NULL);
    X509 *im = mk(imk, "Sim Intermediate", NULL, F, T, true, ca, cak);
    printf("/* test certificates, made by tools/gen_certs.cc */\n");
    emit("pem_key", pem(sk)); emit("pem_ca", pem(ca)); emit("pem_other", pem(ot)); emit("pem_inter", pem(im));
    emit("pem_srv_a", pem(mk(sk, "a.sim.test", "DNS:a.sim.test,DNS:*.wild.sim.test,IP:10.0.0.7", F, T, false, ca, cak)));
    emit("pem_srv_b", pem(mk(sk, "b.sim.test", "DNS:b.sim.test,DNS:bb.sim.test", F, T, false, im, imk)));
    emit("pem_srv_cn", pem(mk(sk, "a.sim.test", NULL, F, T, false, ca, cak)));
    emit("pem_srv_expired", pem(mk(sk, "a.sim.test", "DNS:a.sim.test,DNS:*.wild.sim.test", F, "20200601000000Z", false, ca, cak)));
    emit("pem_srv_future", pem(mk(sk, "a.sim.test", "DNS:a.sim.test", "20300601000000Z", T, false, ca, cak)));
    emit("pem_srv_other", pem(mk(sk, "a.sim.test", "DNS:a.sim.test,DNS:*.wild.sim.test", F, T, false, ot, otk)));
    emit("pem_srv_wrong", pem(mk(sk, "z.example.org", "DNS:z.example.org,DNS:*.example.org", F, T, false, ca, cak)));
    emit("pem_cli_good", pem(mk(sk, "client one", NULL, F, T, false, ca, cak)));
    emit("pem_cli_other", pem(mk(sk, "client one", NULL, F, T, false, ot, otk)));
    emit("pem_cli_expired", pem(mk(sk, "client one", NULL, F, "20200601000000Z", false, ca, cak)));
    X509 *rv = mk(sk, "client revoked", NULL, F, T, false, ca, cak); emit("pem_cli_revoked", pem(rv));
    X509_CRL *crl = X509_CRL_new(); X509_CRL_set_version(crl, 1); X509_CRL_set_issuer_name(crl, X509_get_subject_name(ca));
    ASN1_TIME *t = ASN1_TIME_new(); ASN1_TIME_set_string(t, F); X509_CRL_set1_lastUpdate(crl, t); ASN1_TIME *t2 = ASN1_TIME_new(); ASN1_TIME_set_string(t2, T); X509_CRL_set1_nextUpdate(crl, t2);
    X509_REVOKED *r = X509_REVOKED_new(); X509_REVOKED_set_serialNumber(r, X509_get_serialNumber(rv)); X509_REVOKED_set_revocationDate(r, t); X509_CRL_add0_revoked(crl, r);
    X509_CRL_sort(crl); X509_CRL_sign(crl, cak, EVP_sha256()); emit("pem_crl", pem(crl));
}
