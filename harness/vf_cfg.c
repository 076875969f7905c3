/* Compiled with the flags of each configuration: tells the monitors which one they watch. */
#ifdef NDEBUG
int vf_ndebug = 1;
#else
int vf_ndebug = 0;
#endif
#ifdef RACRYPT_PRIME_MIN_TABLE
int vf_mintable = 1;
#else
int vf_mintable = 0;
#endif
#ifdef RACRYPT_RSA_VERIFY_KEY
int vf_vkey = 1;
#else
int vf_vkey = 0;
#endif
