SEEDS = [
 dict(id="P04-inv-quot", property="P04", tu="neogb",
  edits=[("src/neogb/tools.h", """    int64_t a, b, c, d, e, f;
    a =   p;""", """    int64_t a, b, c, d, f;
    int32_t e;
    a =   p;""")],
  demo=r'''int main(void){ int64_t p = 4294967291LL, v; for(v = 1; v < 5; v++){ uint32_t r = mod_p_inverse_32(v, p);
   if((unsigned __int128)r * v % p != 1){ printf("inverse of %ld mod %ld: %u\n", (long)v, (long)p, r); return 1; } } return 0; }''',
  needs="a prime above 2^31 and a value with a first quotient above 2^31 (value 1)", breaks="mod_p_inverse_32 returns a value that is not the inverse"),
]
