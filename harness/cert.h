/* a fresh self-signed certificate in the scratch directory */
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <openssl/evp.h>
#include <openssl/ec.h>
static char certf[300], keyf[300];
static void mkcert(void) {
    const char *d = getenv("DV_SCRATCH"); snprintf(certf, sizeof certf, "%s/tls-%d-cert.pem", d ? d : "/tmp", (int)getpid()); snprintf(keyf, sizeof keyf, "%s/tls-%d-key.pem", d ? d : "/tmp", (int)getpid());
    EVP_PKEY *k = EVP_EC_gen("P-256"); X509 *x = X509_new(); ASN1_INTEGER_set(X509_get_serialNumber(x), 1); X509_gmtime_adj(X509_getm_notBefore(x), -1000); X509_gmtime_adj(X509_getm_notAfter(x), 100000000);
    X509_set_version(x, 2); X509_set_pubkey(x, k); X509_NAME *n = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (void*)"localhost", -1, -1, 0); X509_set_issuer_name(x, n); X509_sign(x, k, EVP_sha256());
    FILE *f = fopen(certf, "w"); CHECK(f, "harness", "cert file"); PEM_write_X509(f, x); fclose(f); f = fopen(keyf, "w"); PEM_write_PrivateKey(f, k, NULL, NULL, 0, NULL, NULL); fclose(f); X509_free(x); EVP_PKEY_free(k);
}
static void clean(void) { unlink(certf); unlink(keyf); }
