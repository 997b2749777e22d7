#include "ref.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <openssl/bn.h>
extern "C" uint64_t spiped_sim_first_pnum = 0; bool pnum_hook = true;
string sha256(const string &d) { u8 o[32]; SHA256((const u8 *)d.data(), d.size(), o); return string((char *)o, 32); }
string hmac256(const string &k, const string &d) { u8 o[32]; unsigned n = 32; HMAC(EVP_sha256(), k.data(), (int)k.size(), (const u8 *)d.data(), d.size(), o, &n); return string((char *)o, 32); }
string pbkdf2_1(const string &pw, const string &salt, size_t n) { string o(n, 0); PKCS5_PBKDF2_HMAC(pw.data(), (int)pw.size(), (const u8 *)salt.data(), (int)salt.size(), 1, EVP_sha256(), (int)n, (u8 *)&o[0]); return o; }
string be32(u32 v) { string s(4, 0); for (int i = 0; i < 4; i++) s[i] = (char)(v >> (24 - 8 * i)); return s; }
string be64(u64 v) { string s(8, 0); for (int i = 0; i < 8; i++) s[i] = (char)(v >> (56 - 8 * i)); return s; }
string aes256ctr(const string &key, u64 nonce, const string &d) {
    string iv = be64(nonce) + be64(0), o(d.size() + 32, 0); int n = 0;
    static EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, EVP_aes_256_ctr(), nullptr, (const u8 *)key.data(), (const u8 *)iv.data());
    EVP_EncryptUpdate(c, (u8 *)&o[0], &n, (const u8 *)d.data(), (int)d.size()); o.resize(d.size()); return o;
}
static BIGNUM *grp() { static BIGNUM *p = BN_get_rfc3526_prime_2048(nullptr); return p; }
const string &dh_group14() { static string s; if (s.empty()) { s.resize(256); BN_bn2binpad(grp(), (u8 *)&s[0], 256); } return s; }
static string modexp(const string &base, const string &priv) {
    BN_CTX *c = BN_CTX_new(); BIGNUM *b = BN_bin2bn((const u8 *)base.data(), (int)base.size(), nullptr), *e = BN_bin2bn((const u8 *)priv.data(), (int)priv.size(), nullptr), *r = BN_new(), *t = BN_new();
    BN_one(t); BN_lshift(t, t, 258); BN_add(e, e, t); BN_mod_exp(r, b, e, grp(), c); string o(256, 0); BN_bn2binpad(r, (u8 *)&o[0], 256);
    BN_free(b); BN_free(e); BN_free(r); BN_free(t); BN_CTX_free(c); return o;
}
string dh_pub(const string &priv) { return modexp(string(1, 2), priv); }
string dh_shared(const string &y, const string &priv) { return modexp(y, priv); }
string file_key(const string &c) { return sha256(c); }

string ref_pack(RefKeys &k, int dir, const string &data, i64 len_override, bool bad_mac) {
    string p = data; p.resize(PLAIN, 0); p += be32(len_override >= 0 ? (u32)len_override : (u32)data.size());
    string e = aes256ctr(k.E[dir], k.pnum[dir], p); string m = hmac256(k.H[dir], e + be64(k.pnum[dir])); k.pnum[dir]++;
    if (bad_mac) m[7] ^= 0x40; return e + m;
}
int ref_unpack(RefKeys &k, int dir, const string &pkt, string &out) {
    string e = pkt.substr(0, 1028), m = pkt.substr(1028);
    if (hmac256(k.H[dir], e + be64(k.pnum[dir])) != m) return 0;
    string p = aes256ctr(k.E[dir], k.pnum[dir], e); k.pnum[dir]++;
    u32 l = (u32)(u8)p[1024] << 24 | (u32)(u8)p[1025] << 16 | (u32)(u8)p[1026] << 8 | (u8)p[1027];
    if (l == 0 || l > 1024) return 0;
    for (size_t i = l; i < 1024; i++) if (p[i]) return -1;     // padding must be zero
    out.append(p, 0, l); return 1;
}
static string rbytes(Rng &r, size_t n) { string s(n, 0); for (auto &c : s) c = (char)(r.next() >> 40); return s; }
void RefEnd::start() { string n = nonce_force.empty() ? rbytes(rng, 32) : nonce_force; (server ? nS : nC) = n; out += n; }
void RefEnd::send_dh() {
    priv = rbytes(rng, 32);
    if (!y_force.empty()) y_mine = y_force; else if (nopfs) y_mine = string(255, 0) + string(1, 1); else y_mine = dh_pub(priv);
    string mac = hmac256(server ? dhS : dhC, y_mine); if (bad_hello_mac) mac[3] ^= 4;
    out += y_mine + mac; sent_dh = true;
}
void RefEnd::derive() {
    string one = string(255, 0) + string(1, 1);
    if (nopfs || y_mine == one) y_SC = one; else y_SC = dh_shared(y_peer, priv);
    if (y_peer == one) y_SC = one;
    string dk2 = pbkdf2_1(K, nC + nS + y_SC, 128);
    keys.E[0] = dk2.substr(0, 32); keys.H[0] = dk2.substr(32, 32); keys.E[1] = dk2.substr(64, 32); keys.H[1] = dk2.substr(96, 32);
}
void RefEnd::feed(const string &d) {
    in += d;
    for (;;) {
        if (st == 0) {
            if (in.size() < 32) return; (server ? nC : nS) = in.substr(0, 32); in.erase(0, 32);
            dk1 = pbkdf2_1(K, nC + nS, 64); dhC = dk1.substr(0, 32); dhS = dk1.substr(32, 32); st = 1;
            if (!server) send_dh();
        } else if (st == 1) {
            if (in.size() < 288) return; y_peer = in.substr(0, 256); string m = in.substr(256, 32); in.erase(0, 288);
            if (hmac256(server ? dhC : dhS, y_peer) != m) { st = 3; fail = "dh mac"; return; }
            if (y_peer >= dh_group14()) { st = 3; fail = "y >= p"; return; }
            if (requirepfs && y_peer == string(255, 0) + string(1, 1)) { st = 3; fail = "weak"; return; }
            if (server) send_dh();
            derive(); st = 2;
        } else if (st == 2) {
            if (in.size() < PKT) return; string pk = in.substr(0, PKT); in.erase(0, PKT);
            int r = ref_unpack(keys, server ? 0 : 1, pk, plain); if (r != 1) { st = 3; fail = r < 0 ? "nonzero padding" : "packet"; return; } rx_pkts++;
        } else return;
    }
}
void RefEnd::send(const string &data, size_t maxpkt) { for (size_t i = 0; i < data.size(); i += maxpkt) out += ref_pack(keys, server ? 1 : 0, data.substr(i, maxpkt)); }
