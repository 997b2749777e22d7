// Independent implementation of the published spiped protocol (see /repo/DESIGN.md,
// "Encrypted protocol"), on OpenSSL EVP; shares no code with /repo.
#pragma once
#include "core.h"
string sha256(const string &d);
string hmac256(const string &k, const string &d);
string pbkdf2_1(const string &pw, const string &salt, size_t n);
string aes256ctr(const string &key, u64 nonce, const string &d);
string dh_pub(const string &priv32);                       // 2^(2^258+priv) mod p
string dh_shared(const string &y, const string &priv32);
const string &dh_group14();
string be32(u32 v); string be64(u64 v);
string file_key(const string &contents);

extern "C" uint64_t spiped_sim_first_pnum;                 // number of the first packet of every session: 0 unless the plan says otherwise (SPIPED_SIM hook in /repo)
extern bool pnum_hook;                                     // the tree under test has that hook
struct RefKeys { string E[2], H[2]; u64 pnum[2] = {spiped_sim_first_pnum, spiped_sim_first_pnum}; };          // index 0: client->server
string ref_pack(RefKeys &k, int dir, const string &data, i64 len_override = -1, bool bad_mac = false);
// 1: packet produced plaintext in out (empty never), 0: rejected
int ref_unpack(RefKeys &k, int dir, const string &pkt, string &out);
static const size_t PKT = 1060, PLAIN = 1024;

// One end of a session, fed with bytes; produces bytes.
struct RefEnd {
    bool server; string K; bool nopfs = false, requirepfs = false; Rng rng{1};
    // deviations
    string y_force;              // raw 256 bytes used as own DH value (shared value cannot be computed => junk)
    bool bad_hello_mac = false; bool mac_with_own_key_role = false;
    string nonce_force;
    // state
    int st = 0;                  // 0 need nonce, 1 need dh, 2 established, 3 failed
    string in, out, nC, nS, dhC, dhS, priv, y_mine, y_peer, plain; RefKeys keys; string fail; bool sent_dh = false;
    string dk1, y_SC; u64 rx_pkts = 0;
    RefEnd(bool server, const string &K, u64 seed) : server(server), K(K), rng(seed, 77) {}
    void start(); void feed(const string &d); void send(const string &data, size_t maxpkt = PLAIN);
    void send_dh(); void derive();
};
