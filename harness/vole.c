/* Analysed, never run: commits once and, for every challenge in turn, opens, reconstructs and forms
 *   q_j + v_j + challenge_j * u_tree(j)   (per challenge bit j)   and   hcom + hcom',
 * which are zero in every byte exactly when the reconstruction is the committed correlation. */
#include <stdint.h>
#include <stdlib.h>

#include "instances.h"
#include "vc.h"
#include "vole.h"

void vp_vole(unsigned int id, unsigned int ellhat, unsigned int lambda, unsigned int k0, unsigned int t0, unsigned int k1, unsigned int t1, unsigned int count,
             const uint8_t* root, const uint8_t* iv, const uint8_t* challenges, uint8_t* hdiff, uint8_t* qdiff, uint8_t* opened, uint8_t* unopened) {
  const faest_paramset_t params = faest_get_paramset((faest_paramid_t)id);
  const unsigned int lb = lambda / 8, n = (ellhat + 7) / 8, tau = t0 + t1;
  uint8_t h1[64], h2[64], bits[32];
  vec_com_t vc[64];
  uint8_t* v[256];
  uint8_t* q[256];
  const uint8_t* pdec[64];
  const uint8_t* comj[64];
  uint8_t* vbuf = calloc(lambda, n);
  uint8_t* qbuf = calloc(lambda, n);
  uint8_t* c    = malloc((size_t)(tau - 1) * n);
  uint8_t* u    = malloc(n);
  for (unsigned int j = 0; j != lambda; ++j) {
    v[j] = vbuf + j * n;
    q[j] = qbuf + j * n;
  }
  vole_commit(root, iv, ellhat, &params, h1, vc, c, u, v);
  for (unsigned int m = 0; m != count; ++m, challenges += lb, hdiff += 2 * lb, qdiff += lambda * n) {
    for (unsigned int i = 0; i != tau; ++i) {
      const unsigned int depth = i < t0 ? k0 : k1;
      ChalDec(challenges, i, k0, t0, k1, t1, bits);
      vector_open(vc[i].k, vc[i].com, bits, opened, unopened, depth, lb);
      pdec[i] = opened;
      comj[i] = unopened;
      opened += depth * lb;
      unopened += 2 * lb;
    }
    vole_reconstruct(iv, challenges, pdec, comj, h2, q, ellhat, &params);
    for (unsigned int b = 0; b != 2 * lb; ++b) {
      hdiff[b] = h1[b] ^ h2[b];
    }
    for (unsigned int i = 0, j = 0; i != tau; ++i) {
      for (unsigned int k = 0; k != (i < t0 ? k0 : k1); ++k, ++j) {
        for (unsigned int b = 0; b != n; ++b) {
          qdiff[j * n + b] = q[j][b] ^ v[j][b];
        }
        if ((challenges[j / 8] >> (j % 8)) & 1) {
          for (unsigned int b = 0; b != n; ++b) {
            qdiff[j * n + b] = qdiff[j * n + b] ^ u[b];
          }
          if (i) {
            for (unsigned int b = 0; b != n; ++b) {
              qdiff[j * n + b] = qdiff[j * n + b] ^ c[(i - 1) * n + b];
            }
          }
        }
      }
    }
  }
  for (unsigned int i = 0; i != tau; ++i) {
    vec_com_clear(&vc[i]);
  }
  free(vbuf);
  free(qbuf);
  free(c);
  free(u);
}
