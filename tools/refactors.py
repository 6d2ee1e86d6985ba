#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the C sources, to confirm that the checks stay quiet
(development aid: refactors.py DIR applies them all to the copy of the repository in DIR)."""
import sys
R = [
 # byte-wise xor, no word loop
 ("stubs-misc.c", "  if (l >= 64 && ALIGNMENT_OF(s) == ALIGNMENT_OF(d)) {", "  if (0 && ALIGNMENT_OF(s) == ALIGNMENT_OF(d)) {"),
 ("stubs-misc.c", "    memset(Data_custom_val(v), 0, (Wosize_val(v) - 1) * sizeof(value));",
  "    volatile value * p = (volatile value *) Data_custom_val(v);\n    mlsize_t n = Wosize_val(v) - 1;\n    while (n-- > 0) *p++ = 0;"),
 # smaller requests to the system
 ("stubs-rng.c", "int n = l < 256 ? l : 256;", "int n = l < 64 ? l : 64;"),
 ("stubs-rng.c", "retries < 20; retries++", "retries < 35; retries++"),
 ("siphash.c", "  if (len > 0) memcpy(st->buffer, p, len);\n  st->used = len;", "  st->used = 0;\n  while (len > 0) { st->buffer[st->used++] = *p++; len--; }"),
 ("siphash.c", "  uint64_t k0 = U8TO64_LE(key);\n  uint64_t k1 = U8TO64_LE(key + 8);", "  uint64_t k0, k1;\n  memset(st, 0, sizeof(struct siphash));\n  memcpy(&k0, key, 8); memcpy(&k1, key + 8, 8);"),
 ("keccak.c", "  if (len > 0) memcpy(ctx->buffer, data, len);\n  ctx->numbytes = len;", "  ctx->numbytes = len;\n  while (len-- > 0) ctx->buffer[len] = data[len];"),
 ("stubs-sha3.c", "    memset(Context_val(ctx), 0, sizeof(struct SHA3Context));\n    caml_stat_free(Context_val(ctx));\n    Context_val(ctx) = NULL;\n  }\n  return Val_unit;",
  "    memset(Context_val(ctx), 0, sizeof(struct SHA3Context));\n    caml_sha3_finalize(ctx);\n  }\n  return Val_unit;"),
 ("stubs-sha3.c", "  struct SHA3Context * ctx = caml_stat_alloc(sizeof(struct SHA3Context));\n  value res =\n    caml_alloc_custom(&SHA3_context_ops,\n                      sizeof(struct SHA3Context *),\n                      0, 1);\n  SHA3_init(ctx, Int_val(vsize));\n  Context_val(res) = ctx;",
  "  struct SHA3Context * ctx;\n  value res = caml_alloc_custom(&SHA3_context_ops, sizeof(struct SHA3Context *), 1, 1000);\n  Context_val(res) = NULL;\n  ctx = caml_stat_alloc_noexc(sizeof(struct SHA3Context));\n  if (ctx == NULL) caml_raise_out_of_memory();\n  SHA3_init(ctx, Int_val(vsize));\n  Context_val(res) = ctx;"),
 ("stubs-sha3.c", "#include <caml/custom.h>", "#include <caml/custom.h>\n#include <caml/fail.h>"),
 # stream ciphers
 ("chacha20.c", "  int n = ctx->next;\n  for (/*nothing*/; len > 0; len--) {\n    if (n >= 64) { chacha20_block(ctx); n = 0; }\n    *out++ = *in++ ^ ctx->output[n++];\n  }\n  ctx->next = n;",
  "  size_t i = 0;\n  while (i < len) {\n    size_t k, room;\n    if (ctx->next >= 64) { chacha20_block(ctx); ctx->next = 0; }\n    room = 64 - ctx->next;\n    if (room > len - i) room = len - i;\n    for (k = 0; k < room; k++) out[i + k] = in[i + k] ^ ctx->output[ctx->next + k];\n    ctx->next += room; i += room;\n  }"),
 ("chacha20.c", "  if (++ ctx->input[12] == 0) {\n    if (ctx->iv_length == 8) ++ ctx->input[13];\n  }", "  {\n    uint64_t k = (uint64_t) ctx->input[12] + 1;\n    ctx->input[12] = (uint32_t) k;\n    if (ctx->iv_length == 8) ctx->input[13] += (uint32_t) (k >> 32);\n  }"),
 ("arcfour.c", "    x = (x + 1) & 0xFF;\n    kx = key->state[x];\n    y = (kx + y) & 0xFF;", "    kx = key->state[x = (unsigned char) (x + 1)];\n    y = (unsigned char) (kx + y);"),
 ("arcfour.c", "    index1++;\n    if (index1 >= key_data_len) index1 = 0;", "    index1 = (index1 + 1) % key_data_len;"),
 # hashes
 ("sha256.c", "#if 0\n  for (i = 0; i < 64; i++) {", "#if 1\n  for (i = 0; i < 64; i++) {"),
 ("sha256.c", "  t = ctx->length[1];\n  if ((ctx->length[1] = t + (u32) (len << 3)) < t)\n    ctx->length[0]++;    /* carry from low 32 bits to high 32 bits */\n  ctx->length[0] += (u32) (len >> 29);",
  "  unsigned long long total = ((unsigned long long) ctx->length[0] << 32) | ctx->length[1];\n  total += (unsigned long long) len << 3;\n  ctx->length[0] = (u32) (total >> 32);\n  ctx->length[1] = (u32) total;"),
 ("sha256.c", "  memcpy(ctx->buffer, data, len);\n  ctx->numbytes = len;", "  if (len != 0) memcpy(ctx->buffer, data, len);\n  ctx->numbytes = (int) len;"),
 # zlib
 ("stubs-zlib.c", "  value res = caml_alloc_custom(ops, sizeof(z_streamp), 0, 1);\n\n  ZStream_val(res) = caml_stat_alloc(sizeof(z_stream));",
  "  value res = caml_alloc_custom(ops, sizeof(z_streamp), 1, 500);\n\n  ZStream_val(res) = caml_stat_alloc(sizeof(z_stream));\n  memset(ZStream_val(res), 0, sizeof(z_stream));"),
 ("stubs-zlib.c", "#include <zlib.h>", "#include <zlib.h>\n#include <string.h>"),
]
def main(d):
    for f, a, b in R:
        p = d + "/src/" + f
        s = open(p, newline="").read()
        if s.count(a) != 1: print("%s: pattern occurs %d times: %r" % (f, s.count(a), a[:60])); sys.exit(1)
        open(p, "w", newline="").write(s.replace(a, b))
main(sys.argv[1])
