/* Replaces BLAKE2b by a hash with many collisions (linked with --wrap): all
   bytes are zero but the last one, the sum of the input modulo 2. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>

int __wrap_blake2b_init(void *s, size_t n) { (void)n; *(unsigned char *)s = 0; return 0; }
int __wrap_blake2b_update(void *s, const void *in, size_t n)
{
  for(size_t i = 0; i < n; i++) *(unsigned char *)s += ((const unsigned char *)in)[i];
  return 0;
}
int __wrap_blake2b_final(void *s, void *out, size_t n)
{
  memset(out, 0, n);
  ((unsigned char *)out)[n - 1] = *(unsigned char *)s % 2;
  return 0;
}
int __wrap_blake2b(void *out, size_t n, const void *in, size_t len, const void *key, size_t keylen)
{
  (void)key; (void)keylen;
  unsigned char state;
  __wrap_blake2b_init(&state, n);
  __wrap_blake2b_update(&state, in, len);
  return __wrap_blake2b_final(&state, out, n);
}
