// C32: two ends of an encrypted link understand each other, whatever the cuts of the stream, the schedule and the random source.
#include "tunnel.h"
#include <cy_crypt.h>
#include <string>
#include <vector>
using namespace scn;
using namespace cyclone;

namespace {
typedef unsigned __int128 u128;
const u128 P = ~(u128)0 - 158;            // 2^128 - 159
u128 val(const dhkey_t& k) { u128 v = 0; for (int i = 15; i >= 0; i--) v = v << 8 | k.bytes[i]; return v; }
u128 addmod(u128 a, u128 b) { return a >= P - b ? a - (P - b) : a + b; }       // both below P
u128 mulmod(u128 a, u128 b) { u128 r = 0; for (; b; b >>= 1) { if (b & 1) r = addmod(r, a); a = addmod(a, a); } return r; }
u128 powmod(u128 a, u128 b) { u128 r = 1; a %= P; for (; b; b >>= 1) { if (b & 1) r = mulmod(r, a); a = mulmod(a, a); } return r; }

// AES-128 by its definition
typedef unsigned char u8; typedef uint32_t u32;
u8 xt(u8 a) { return (u8)(a << 1 ^ (a & 0x80 ? 0x1b : 0)); }
u8 gm(u8 a, u8 b) { u8 r = 0; for (; b; b >>= 1) { if (b & 1) r ^= a; a = xt(a); } return r; }
struct Ref {
  u8 S[256], rk[176];
  explicit Ref(const u8* key) {
    for (int i = 0; i < 256; i++) {
      u8 x = 0; if (i) { x = 1; for (int k = 0; k < 254; k++) x = gm(x, (u8)i); }   // i^254 is the inverse
      u8 y = x; for (int k = 1; k < 5; k++) y ^= (u8)(x << k | x >> (8 - k));
      S[i] = y ^ 0x63;
    }
    memcpy(rk, key, 16); u8 rc = 1;
    for (int i = 16; i < 176; i += 4) {
      u8 t[4]; memcpy(t, rk + i - 4, 4);
      if (i % 16 == 0) { u8 z = t[0]; t[0] = S[t[1]] ^ rc; t[1] = S[t[2]]; t[2] = S[t[3]]; t[3] = S[z]; rc = xt(rc); }
      for (int k = 0; k < 4; k++) rk[i + k] = rk[i - 16 + k] ^ t[k];
    }
  }
  void block(u8* s) const {
    for (int k = 0; k < 16; k++) s[k] ^= rk[k];
    for (int r = 1; r <= 10; r++) {
      u8 t[16]; for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) t[4 * c + w] = S[s[4 * ((c + w) % 4) + w]];
      for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) {
        const u8* q = t + 4 * c;
        s[4 * c + w] = (r == 10 ? q[w] : (u8)(xt(q[w]) ^ xt(q[(w + 1) % 4]) ^ q[(w + 1) % 4] ^ q[(w + 2) % 4] ^ q[(w + 3) % 4])) ^ rk[16 * r + 4 * c + w];
      }
    }
  }
  void cbc(std::string& d, u8* iv) const { for (size_t i = 0; i < d.size(); i += 16) { for (int k = 0; k < 16; k++) iv[k] ^= (u8)d[i + (size_t)k]; block(iv); memcpy(&d[i], iv, 16); } }
};
u32 adler_ref(const std::string& d) { u32 a = 1, b = 0; for (char c : d) { a = (a + (u8)c) % 65521; b = (b + a) % 65521; } return b << 16 | a; }
struct XRef { uint64_t a, b; uint64_t next() { uint64_t x = a, y = b; a = y; x ^= x << 23; x ^= x >> 17; x ^= y ^ (y >> 26); b = x; return x + y; } };

enum Kind { CBC, CBC_DEFAULT, XOR, PLAIN, NKIND };
struct Head { u32 kind, plain, size, adler; };
struct End {
  int fd; const char* who; uint32_t stream; dhkey_t pub, priv, secret; bool up; int nmsg;
  End() : fd(-1), who(""), stream(0), up(false), nmsg(0) {}
};
bool get(int fd, void* p, size_t n) {
  for (size_t at = 0; at < n;) { ssize_t k = ::recv(fd, (char*)p + at, n - at, 0); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; at += (size_t)k; }
  return true;
}
void send_all(End* e, const std::string& s) { Raw r; r.fd = e->fd; SIM_CHECK(r.send(s), "harness", "the link broke"); r.fd = -1; }
// a piece of n, in multiples of unit
size_t piece(size_t n, size_t unit) { size_t k = n / unit; if (k <= 1 || sim::coin(3)) return n; return (1 + sim::choose((uint32_t)k)) * unit; }

void agree(End* e) {
  DH_generate_key_pair(e->pub, e->priv);
  { SIM_ATOMIC; SIM_CHECK(val(e->pub) % P == powmod(5, val(e->priv)), "wrong-key", "%s: the public key is not 5 to the private key", e->who); }
  dhkey_t other;
  if (e->up) send_all(e, std::string((const char*)e->pub.bytes, 16));
  SIM_CHECK(get(e->fd, other.bytes, 16), "harness", "no key came");
  if (!e->up) send_all(e, std::string((const char*)e->pub.bytes, 16));
  DH_generate_key_secret(e->secret, e->priv, other);
  SIM_ATOMIC; SIM_CHECK(val(e->secret) % P == powmod(val(other), val(e->priv)), "wrong-key", "%s: the secret is not the other's key to the private key", e->who);
}
// both directions use the secret of their own end, so they work only if both are equal
void ivs(End* e, bool sending, u8* iv, XorShift128* x) {
  bool up = e->up == sending;
  for (int i = 0; i < 16; i++) iv[i] = (u8)(e->secret.bytes[(i + 5) % 16] ^ (up ? 0x36 : 0x5c));
  x->seed0 = e->secret.dq.low ^ (up ? 1 : 2); x->seed1 = e->secret.dq.high;
}
void sender(End* e) {
  u8 iv[16], riv[16]; XorShift128 xs; ivs(e, true, iv, &xs); memcpy(riv, iv, 16);
  XRef xr = {xs.seed0, xs.seed1};
  Rijndael* aes = new Rijndael(e->secret.bytes);
  Ref* ref; { SIM_ATOMIC; ref = new Ref(e->secret.bytes); }
  for (int m = 0; m < e->nmsg; m++) {
    Head h; h.kind = sim::choose(NKIND); h.plain = 1 + (sim::coin(4) ? sim::choose(40) : sim::choose(sim::coin(8) ? 12000 : 900));
    std::string d, want; fill(d, e->stream + (u32)m, 0, h.plain); if (sim::coin(8)) d.assign(h.plain, (char)0xFF);
    { SIM_ATOMIC; h.adler = adler_ref(d); }
    bool aesk = h.kind == CBC || h.kind == CBC_DEFAULT;
    h.size = aesk ? (h.plain + 15) / 16 * 16 : h.plain;
    d.resize(h.size, '\x11'); want = d;
    if (aesk) {
      bool in_place = sim::coin(2); std::string out(h.size, 0);
      for (size_t at = 0; at < h.size;) {
        size_t k = h.kind == CBC ? piece(h.size - at, 16) : h.size - at;
        u8* to = in_place ? (u8*)&d[at] : (u8*)&out[at];
        if (h.kind == CBC) aes->encrypt((const u8*)&d[at], to, k, iv); else aes->encrypt((const u8*)&d[at], to, k);
        at += k;
      }
      if (!in_place) { SIM_CHECK(d == want, "input-changed", "%s: encryption changed its input", e->who); d.swap(out); }
      SIM_ATOMIC;
      u8 dv[16]; for (int i = 0; i < 16; i++) dv[i] = (u8)i;
      ref->cbc(want, h.kind == CBC ? riv : dv);
      SIM_CHECK(d == want, "wrong-cipher", "%s: message %d of %u bytes is not encrypted by the standard", e->who, m, h.plain);
      SIM_CHECK(h.kind != CBC || !memcmp(iv, riv, 16), "wrong-cipher", "%s: the initial vector after message %d is not its last block", e->who, m);
    } else if (h.kind == XOR) {
      size_t off = sim::choose(8); std::string b(off + h.size, 0); memcpy(&b[off], d.data(), h.size);
      xorshift128((u8*)&b[off], h.size, xs);
      memcpy(&d[0], &b[off], h.size);
      SIM_ATOMIC;
      for (size_t i = 0; i < want.size();) { uint64_t x = xr.next(); for (int k = 0; k < 8 && i < want.size(); k++, i++) want[i] ^= (char)(x >> (8 * k)); }
      SIM_CHECK(d == want, "wrong-cipher", "%s: message %d of %u bytes is not masked by its generator", e->who, m, h.plain);
    }
    send_all(e, std::string((const char*)&h, sizeof h) + d);
    if (sim::coin(4)) sim::sleep_us(sim::choose(3000));
  }
  delete aes;
  SIM_ATOMIC; delete ref;
}
void receiver(End* e, int n, u32 stream) {
  u8 iv[16]; XorShift128 xs; ivs(e, false, iv, &xs);
  Rijndael* aes = new Rijndael(e->secret.bytes);
  for (int m = 0; m < n; m++) {
    Head h; SIM_CHECK(get(e->fd, &h, sizeof h), "harness", "no message came");
    SIM_CHECK(h.size < 20000 && h.kind < NKIND, "harness", "head");
    bool aesk = h.kind == CBC || h.kind == CBC_DEFAULT;
    u8 dv[16]; for (int i = 0; i < 16; i++) dv[i] = (u8)i;
    std::string in(h.size, 0), out; size_t have = 0, done = 0; u32 sum = INITIAL_ADLER;
    auto take = [&](size_t k) {            // the next k bytes of plain text are at out[done]
      size_t left = std::min(k, h.plain > done ? h.plain - done : 0);
      for (size_t at = 0; at < left;) {
        if (sim::coin(8)) sum = adler32(sum, (const u8*)&out[done + at], 0);           // nothing more has come
        size_t x = piece(left - at, 1);
        sum = adler32(sum, (const u8*)&out[done + at], x); at += x;
      }
      done += k;
    };
    out.assign(h.size, 0);
    while (have < h.size) {
      ssize_t k = ::recv(e->fd, &in[have], h.size - have, 0);
      if (k < 0 && errno == EINTR) continue;
      SIM_CHECK(k > 0, "harness", "the link broke");
      have += (size_t)k;
      if (h.kind == XOR) continue;
      while (have - done >= (aesk ? 16 : 1)) {
        size_t x = aesk ? piece((have - done) / 16 * 16, 16) : have - done;
        if (!aesk) memcpy(&out[done], &in[done], x);
        else if (sim::coin(2)) { std::string t(in, done, x); aes->decrypt((const u8*)&t[0], (u8*)&t[0], x, h.kind == CBC ? iv : dv); memcpy(&out[done], t.data(), x); }
        else if (h.kind == CBC_DEFAULT && done == 0 && x == h.size) aes->decrypt((const u8*)&in[0], (u8*)&out[0], x);
        else aes->decrypt((const u8*)&in[done], (u8*)&out[done], x, h.kind == CBC ? iv : dv);
        take(x);
      }
    }
    if (h.kind == XOR) { out = in; xorshift128((u8*)&out[0], h.size, xs); take(h.size); }
    SIM_ATOMIC;
    std::string want; fill(want, stream + (u32)m, 0, h.plain);
    if (adler_ref(want) != h.adler) want.assign(h.plain, (char)0xFF);
    SIM_CHECK(!out.compare(0, h.plain, want), "stream-corrupt", "%s: message %d (kind %u, %u bytes) is not what was encrypted", e->who, m, h.kind, h.plain);
    SIM_CHECK(sum == h.adler, "wrong-checksum", "%s: the checksum of message %d is %08x, %08x by definition", e->who, m, sum, h.adler);
    sim::nontrivial();
  }
  delete aes;
}
}  // namespace

SIM_SCENARIO("C32", secure_link) {
  pick_sndbuf(); allow_net_timing(); sim::allow(sim::F_THREAD_STALL);
  srand(1 + sim::cfg(1 << 30));
  int mode = sim::cfg(4) ? 3 : (int)sim::cfg(4); sim::set_rand(mode);
  if (mode == 1) sim::probe("random-source-zero"); else if (mode == 2) sim::probe("random-source-ones"); else if (mode == 3) sim::probe("random-source-poor");
  int n = 1 + (int)sim::choose(3);
  Listener* lis = new Listener(7300);
  std::vector<int> th;
  for (int i = 0; i < n; i++) {
    End* a = new End(); End* b = new End();
    Raw r; SIM_CHECK(r.connect(7300, 500), "harness", "connect");
    a->fd = r.fd; b->fd = lis->accept();
    a->who = "connecting end"; b->who = "accepting end"; a->up = true;
    a->stream = 100u * (u32)i + 1; b->stream = a->stream + 50;
    a->nmsg = (int)sim::choose(6); b->nmsg = (int)sim::choose(6);
    for (End* e : {a, b}) {
      End* o = e == a ? b : a;
      th.push_back(sim::spawn("end", [e, o]() {
        agree(e);
        int s = sim::spawn("sender", [e]() { sender(e); });
        receiver(e, o->nmsg, o->stream);
        sim::join(s);
        SIM_ATOMIC; SIM_CHECK(e->fd >= 0, "harness", "fd");
      }));
    }
  }
  for (int t : th) sim::join(t);
  sim::set_rand(0);
}

// what a hostile peer may send as its public key: the secret is still its power, and nothing else happens
SIM_SCENARIO_W("C32", hostile_key, 1) {
  srand(1 + sim::cfg(1 << 30)); sim::set_rand(sim::coin(4) ? (int)sim::choose(4) : 3); sim::allow(sim::F_THREAD_STALL);
  { // the private key comes from the random source alone, not from what its memory held before
    dhkey_t p1, k1, p2, k2; u32 seed = 1 + sim::choose(1 << 20);
    memset(&k1, 0, sizeof k1); memset(&k2, 0xFF, sizeof k2);
    srand(seed); DH_generate_key_pair(p1, k1);
    srand(seed); DH_generate_key_pair(p2, k2);
    SIM_CHECK(!memcmp(&k1, &k2, sizeof k1) && !memcmp(&p1, &p2, sizeof p1), "stale-key", "the private key keeps bytes which were in its memory before");
  }
  std::vector<int> th;
  for (int i = 1 + (int)sim::choose(2); i > 0; i--) th.push_back(sim::spawn("end", []() {
    dhkey_t pub, priv, other, sec;
    DH_generate_key_pair(pub, priv);
    for (int k = 0; k < 16; k++) other.bytes[k] = (u8)(sim::coin(2) ? 0xFF : sim::choose(256));
    switch (sim::choose(4)) {
      case 0: memset(other.bytes, 0, 16); other.bytes[0] = (u8)sim::choose(3); break;
      case 1: memset(other.bytes, 0xFF, 16); other.bytes[0] = (u8)(0x5e + sim::choose(8)); break;     // around the modulus
      case 2: memset(other.bytes, 0xFF, 16); other.bytes[0] = (u8)sim::choose(256); break;
      default: break;
    }
    DH_generate_key_secret(sec, priv, other);
    SIM_ATOMIC;
    SIM_CHECK(val(pub) % P == powmod(5, val(priv)), "wrong-key", "the public key is not 5 to the private key");
    SIM_CHECK(val(sec) % P == powmod(val(other), val(priv)), "wrong-key", "the secret is not the other's key to the private key");
    sim::nontrivial();
  }));
  for (int t : th) sim::join(t);
  sim::set_rand(0);
}
