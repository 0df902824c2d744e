#pragma once
#include "hashes.h"
#include <stdexcept>
#include "caligo/hkdf.h"
template <class H> static void rhmac(const uint8_t* k, size_t kn, const uint8_t* t, size_t tn, uint8_t* out) { constexpr size_t B = Ref<H>::B, O = Ref<H>::OUT; uint8_t key[B] = {}, buf[B + 700]; if (kn > B) Ref<H>::go(k, kn, key); else if (kn) memcpy(key, k, kn);
  for (size_t i = 0; i < B; i++) buf[i] = key[i] ^ 0x36; if (tn) memcpy(buf + B, t, tn); uint8_t in[O]; Ref<H>::go(buf, B + tn, in); for (size_t i = 0; i < B; i++) buf[i] = key[i] ^ 0x5c; memcpy(buf + B, in, O); Ref<H>::go(buf, B + O, out); }
template <class H> static void rexpand(const uint8_t* prk, size_t pn, const uint8_t* info, size_t in, uint8_t* out, size_t len) { constexpr size_t O = Ref<H>::OUT; uint8_t b[O + 600], t[O]; size_t tn = 0; uint8_t c = 1; for (size_t d = 0; d < len; d += O) { memcpy(b, t, tn); if (in) memcpy(b + tn, info, in); b[tn + in] = c++; rhmac<H>(prk, pn, b, tn + in + 1, t); tn = O; for (size_t i = 0; i < O && d + i < len; i++) out[d + i] = t[i]; } }
template <class H> static void rlabel(const uint8_t* s, size_t sn, const char* label, const uint8_t* ctx, size_t cn, uint8_t* out, size_t len) { uint8_t b[600]; size_t n = 0, ln = strlen(label); b[n++] = len >> 8; b[n++] = len; b[n++] = ln + 6; memcpy(b + n, "tls13 ", 6); n += 6; memcpy(b + n, label, ln); n += ln; b[n++] = cn; if (cn) memcpy(b + n, ctx, cn); n += cn; rexpand<H>(s, sn, b, n, out, len); }
static uint8_t K[400], T[400];
static void init() { sa_sym(K, 400, "key", 0); sa_sym(T, 400, "text", 0); }
struct C16 { static constexpr size_t keysize = 16, ivsize = 12; }; struct C32 { static constexpr size_t keysize = 32, ivsize = 12; };
template <class H> static bool eq(const char* id, const std::vector<uint8_t>& v, const uint8_t* e, size_t n) { sa_true("length", v.size() == n); if (v.size() == n) sa_same(id, v.data(), e, n); return true; }
template <class H> static void tls(const char* nm, std::initializer_list<size_t> sns = {32, 48}, size_t tn = Ref<H>::OUT) { init(); constexpr size_t O = Ref<H>::OUT; uint8_t zero[O] = {}, eh[O], es[O], d[O], hs[O], ms[O], x[64], ts[O]; Ref<H>::go(T, 0, eh);
  for (size_t sn : sns) { sa_ctx(nm, sn); rhmac<H>(zero, O, zero, O, es); rlabel<H>(es, O, "derived", eh, O, d, O); rhmac<H>(d, O, K, sn, hs); auto s = HKDF_HandshakeSecret<H>(bytes(K, sn)); sa_same("handshake-secret", s.data.data(), hs, O);
    rlabel<H>(hs, O, "derived", eh, O, d, O); rhmac<H>(d, O, zero, O, ms); auto m = HKDF_MasterSecret<H>(s); sa_same("master-secret", m.data.data(), ms, O); sa_same("handshake-secret-kept", s.data.data(), hs, O);
    bytes tr(T, tn); for (int c = 0; c < 2; c++) for (int h = 0; h < 2; h++) { sa_ctx(nm, sn * 10 + c * 2 + h); const char* l = c ? h ? "c hs traffic" : "c ap traffic" : h ? "s hs traffic" : "s ap traffic"; auto& sec = h ? s : m; const uint8_t* sv = h ? hs : ms;
      rlabel<H>(sv, O, l, T, tn, ts, O); eq<H>("traffic-secret", sec.get_traffic_secret(tr, c, h), ts, O);
      auto k1 = sec.template get_key_iv<C16>(tr, c, h); rlabel<H>(ts, O, "key", T, 0, x, 16); eq<H>("key16", k1.key, x, 16); rlabel<H>(ts, O, "iv", T, 0, x, 12); eq<H>("iv12", k1.iv, x, 12);
      auto k2 = sec.template get_key_iv<C32>(tr, c, h); rlabel<H>(ts, O, "key", T, 0, x, 32); eq<H>("key32", k2.key, x, 32); if (!h) { auto k3 = sec.template get_key_iv<C16>(tr, c); sa_same("default-is-application", k3.key.data(), k1.key.data(), 16); }
      if (h) { rlabel<H>(ts, O, "finished", T, 0, x, O); eq<H>("finished-key", sec.get_finished_key(tr, c), x, O); } }
    sa_ctx(nm, sn); auto u = HKDF_UpdateSecret<H>(m); rlabel<H>(ms, O, "traffic upd", T, 0, x, O); sa_same("update", u.data.data(), x, O);
    rlabel<H>(ms, O, "exp master", T, tn, x, O); eq<H>("exporter-master", exporter_master<H>(m, tr), x, O); rlabel<H>(ms, O, "res master", T, tn, x, O); eq<H>("resumption-master", resumption_master<H>(m, tr), x, O); } }
