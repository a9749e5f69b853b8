/* Analysed, never run: faest_sign followed by faest_verify on the signature it produced, for one concrete third challenge after the other.  The functions of
 * faest.c are analysed as they stand (the file is included); the proof layer and the universal hash, which need field arithmetic, are replaced by transparent
 * stand-ins that copy, and the third challenge is replaced by the wanted one after it was derived.  Everything stored through the out parameters is zero in
 * every byte exactly when the verifier's corrected columns, the hashed columns and the recomputed challenge are the signer's. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "aes.h"
#include "faest.h"
#include "faest_aes.h"
#include "instances.h"
#include "random_oracle.h"
#include "randomness.h"
#include "universal_hashing.h"
#include "utils.h"
#include "vc.h"
#include "vole.h"

static struct {
  const uint8_t *wanted, *w, *ab, *vole;
  uint8_t *u, *v, *stream, *derived, *qdiff, *hdiff, *cdiff;
  unsigned int lb, n, verifying, fill, cap, proofs;
} S;

static void probe_h1(H1_context_t* ctx, const uint8_t* src, size_t len) {
  for (size_t i = 0; i != len; ++i, ++S.fill) {
    if (S.fill >= S.cap) {
      continue;
    }
    if (!S.verifying) {
      S.stream[S.fill] = src[i];
    } else {
      S.hdiff[S.fill] = S.stream[S.fill] ^ src[i];
    }
  }
  H1_update(ctx, src, len);
}

static void probe_h2(H2_context_t* ctx, uint8_t* digest, size_t len) {
  H2_final(ctx, digest, len);
  if (len == S.lb) {
    for (unsigned int i = 0; i != S.lb; ++i) {
      if (!S.verifying) {
        S.derived[i] = digest[i];
      } else {
        S.cdiff[i] = S.derived[i] ^ digest[i];
      }
      digest[i] = S.wanted[i];
    }
  }
}

static void probe_vole_hash(uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned int ell, uint32_t lambda) {
  (void)sd;
  (void)ell;
  memcpy(h, x, lambda / 8 + UNIVERSAL_HASH_B);
}

static uint8_t* probe_witness(const uint8_t* key, const uint8_t* in, const faest_paramset_t* params) {
  (void)key;
  (void)in;
  uint8_t* w = malloc(params->faest_param.l / 8);
  memcpy(w, S.w, params->faest_param.l / 8);
  return w;
}

static void probe_prove(const uint8_t* w, const uint8_t* u, uint8_t** V, const uint8_t* in, const uint8_t* out, const uint8_t* chall, uint8_t* a_tilde,
                        uint8_t* b_tilde, const faest_paramset_t* params) {
  (void)w;
  (void)in;
  (void)out;
  (void)chall;
  for (unsigned int b = 0; b != S.n; ++b) {
    S.u[b] = u[b];
  }
  for (unsigned int j = 0; j != params->faest_param.lambda; ++j) {
    for (unsigned int b = 0; b != S.n; ++b) {
      S.v[j * S.n + b] = V[j][b];
    }
  }
  memcpy(a_tilde, S.ab, S.lb);
  memcpy(b_tilde, S.ab + S.lb, S.lb);
}

static uint8_t* probe_verify(const uint8_t* d, uint8_t** Q, const uint8_t* chall_2, const uint8_t* chall_3, const uint8_t* a_tilde, const uint8_t* in,
                             const uint8_t* out, const faest_paramset_t* params) {
  (void)d;
  (void)chall_2;
  (void)chall_3;
  (void)a_tilde;
  (void)in;
  (void)out;
  for (unsigned int j = 0; j != params->faest_param.lambda; ++j) {
    const unsigned int bit = (S.wanted[j / 8] >> (j % 8)) & 1;
    for (unsigned int b = 0; b != S.n; ++b) {
      if (bit) {
        S.qdiff[j * S.n + b] = Q[j][b] ^ S.v[j * S.n + b] ^ S.u[b];
      } else {
        S.qdiff[j * S.n + b] = Q[j][b] ^ S.v[j * S.n + b];
      }
    }
  }
  ++S.proofs;
  uint8_t* r = malloc(S.lb);
  memcpy(r, S.ab + S.lb, S.lb);
  return r;
}

/* Stand-ins for the vector commitment, used when only faest.c is to be analysed: u, v, the corrections and the commitment hash are the bytes of S.vole, and
 * the reconstruction is the correlated one. */
static void probe_commit(const uint8_t* rootkey, const uint8_t* iv, unsigned int ellhat, const faest_paramset_t* params, uint8_t* hcom, vec_com_t* vecCom,
                         uint8_t* c, uint8_t* u, uint8_t** v) {
  if (!S.vole) {
    vole_commit(rootkey, iv, ellhat, params, hcom, vecCom, c, u, v);
    return;
  }
  const unsigned int lambda = params->faest_param.lambda, tau = params->faest_param.tau;
  memcpy(hcom, S.vole, 2 * S.lb);
  memcpy(u, S.vole + 2 * S.lb, S.n);
  for (unsigned int j = 0; j != lambda; ++j) {
    for (unsigned int b = 0; b != S.n; ++b) {
      v[j][b] = S.vole[2 * S.lb + (1 + j) * S.n + b] ^ S.vole[b % S.lb]; /* a sum, like every value q and u are later added to */
    }
  }
  memcpy(c, S.vole + 2 * S.lb + (1 + lambda) * S.n, (tau - 1) * S.n);
}

static void probe_reconstruct(const uint8_t* iv, const uint8_t* chall, const uint8_t* const* pdec, const uint8_t* const* com, uint8_t* hcom, uint8_t** q,
                              unsigned int ellhat, const faest_paramset_t* params) {
  if (!S.vole) {
    vole_reconstruct(iv, chall, pdec, com, hcom, q, ellhat, params);
    return;
  }
  const uint8_t *u = S.vole + 2 * S.lb, *v = u + S.n, *c = v + params->faest_param.lambda * S.n;
  memcpy(hcom, S.vole, 2 * S.lb);
  for (unsigned int i = 0, j = 0; i != params->faest_param.tau; ++i) {
    for (unsigned int k = 0; k != (i < params->faest_param.t0 ? params->faest_param.k0 : params->faest_param.k1); ++k, ++j) {
      for (unsigned int b = 0; b != S.n; ++b) {
        uint8_t x = v[j * S.n + b] ^ S.vole[b % S.lb];
        if ((chall[j / 8] >> (j % 8)) & 1) {
          x ^= u[b];
          if (i) {
            x ^= c[(i - 1) * S.n + b];
          }
        }
        q[j][b] = x;
      }
    }
  }
}

static void probe_open(const uint8_t* k, const uint8_t* com, const uint8_t* b, uint8_t* cop, uint8_t* com_j, uint32_t depth, uint32_t lambda_bytes) {
  if (!S.vole) {
    vector_open(k, com, b, cop, com_j, depth, lambda_bytes);
    return;
  }
  memset(cop, 0, depth * lambda_bytes);
  memset(com_j, 0, 2 * lambda_bytes);
}

#define vole_commit probe_commit
#define vole_reconstruct probe_reconstruct
#define vector_open probe_open
#define H1_update probe_h1
#define H2_final probe_h2
#define vole_hash probe_vole_hash
#define aes_extend_witness probe_witness
#define aes_prove probe_prove
#define aes_verify probe_verify
#define faest_sign vp_probed_sign
#define faest_verify vp_probed_verify
void vp_probed_sign(uint8_t* sig, const uint8_t* msg, size_t msglen, const uint8_t* owf_key, const uint8_t* owf_input, const uint8_t* owf_output,
                    const uint8_t* rho, size_t rholen, const faest_paramset_t* params);
int vp_probed_verify(const uint8_t* msg, size_t msglen, const uint8_t* sig, const uint8_t* owf_input, const uint8_t* owf_output,
                     const faest_paramset_t* params);
#include "faest.c"

void vp_sign_verify(unsigned int id, unsigned int l, unsigned int lambda, unsigned int k0, unsigned int t0, unsigned int k1, unsigned int t1,
                    unsigned int count, const uint8_t* key, const uint8_t* pk, const uint8_t* msg, unsigned int msglen, const uint8_t* rho, const uint8_t* w,
                    const uint8_t* ab, const uint8_t* vole, const uint8_t* challenges, uint8_t* qdiff, uint8_t* hdiff, uint8_t* cdiff, uint8_t* verdict) {
  faest_paramset_t params = faest_get_paramset((faest_paramid_t)id);
  const unsigned int lb = lambda / 8, n = l / 8 + 2 * lb + UNIVERSAL_HASH_B, tau = t0 + t1, half = params.faest_param.pkSize / 2;
  const unsigned int stream = 2 * half + msglen + lambda * (lb + UNIVERSAL_HASH_B);
  params.faest_param.l       = l;
  params.faest_param.sigSize = (tau - 1) * n + lb + UNIVERSAL_HASH_B + l / 8 + lb + (t0 * (k0 + 2) + t1 * (k1 + 2)) * lb + lb + IV_SIZE;
  S.lb      = lb;
  S.cap     = stream;
  S.n       = n;
  S.w       = w;
  S.ab      = ab;
  S.vole    = vole;
  S.u       = malloc(n);
  S.v       = malloc(lambda * n);
  S.stream  = malloc(stream);
  S.derived = malloc(lb);
  uint8_t* sig = malloc(params.faest_param.sigSize);
  for (unsigned int m = 0; m != count; ++m, challenges += lb, qdiff += lambda * n, hdiff += stream, cdiff += lb, verdict += 4) {
    S.wanted    = challenges;
    S.qdiff     = qdiff;
    S.hdiff     = hdiff;
    S.cdiff     = cdiff;
    S.verifying = S.fill = S.proofs = 0;
    vp_probed_sign(sig, msg, msglen, key, pk, pk + half, rho, lb, &params);
    const unsigned int absorbed = S.fill;
    S.verifying                 = 1;
    S.fill                      = 0;
    const int r                 = vp_probed_verify(msg, msglen, sig, pk, pk + half, &params);
    verdict[0]                  = r != 0;
    verdict[1]                  = absorbed != stream;
    verdict[2]                  = S.fill != stream;
    verdict[3]                  = S.proofs != 1;
  }
}
